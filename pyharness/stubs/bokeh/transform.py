def cumsum(field, include_zero=False):
    return {"cumsum": field, "include_zero": include_zero}


def factor_cmap(field, palette, factors, start=0, end=None, **kwargs):
    return {"factor_cmap": field, "palette": list(palette), "factors": list(factors), "start": start, "end": end}
