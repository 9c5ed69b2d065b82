class ScalarFormatter:
    def __init__(self, *a, **kw):
        pass
