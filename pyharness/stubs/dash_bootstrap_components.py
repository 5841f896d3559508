from dash._record import Component, library

library(globals(), "dbc")


class themes(object):
    BOOTSTRAP = "bootstrap"


class Table(Component):
    def __init__(self, *args, **kwargs):
        Component.__init__(self, "dbc.Table", args, kwargs)

    @classmethod
    def from_dataframe(cls, df, **kwargs):
        return cls(columns=list(df.columns), rows=[list(r) for r in zip(*(df[c].tolist() for c in df.columns))] if len(df.index) else [], **kwargs)
