from ._model import binary_encoding  # noqa
