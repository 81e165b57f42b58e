"""Only what pycppsas7bdat.sink uses, keeping what it is given."""


class DataFrame:
    def __init__(self, data=None, columns=None, copy=None):
        self.names = list(data) if columns is None else list(columns)
        self.values = {n: data[n] for n in self.names}
        lengths = {len(v) for v in self.values.values()}
        if len(lengths) > 1:
            raise ValueError("All arrays must be of the same length")
        self.length = lengths.pop() if lengths else 0

    @classmethod
    def from_records(cls, rows, columns=None):
        rows = list(rows)
        for r in rows:
            if len(r) != len(columns):
                raise ValueError("%d columns passed, passed data had %d columns" % (len(columns), len(r)))
        return cls({n: [r[i] for r in rows] for i, n in enumerate(columns)}, columns=columns)


def concat(frames):
    frames = list(frames)
    if not frames:
        raise ValueError("No objects to concatenate")
    names = frames[0].names
    for f in frames:
        assert f.names == names
    return DataFrame({n: [x for f in frames for x in f.values[n]] for n in names}, columns=names)
