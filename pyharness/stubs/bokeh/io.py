from .plotting import output_file, save, show


def export_png(obj, filename=None, **kwargs):
    save(obj, filename)
