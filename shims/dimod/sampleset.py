from ._samples import as_samples, SampleSet, SampleView  # noqa
