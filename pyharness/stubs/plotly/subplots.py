from ._record import Figure


def make_subplots(rows=1, cols=1, subplot_titles=(), **_):
    return Figure(layout={"rows": rows, "cols": cols, "subplot_titles": list(subplot_titles)})
