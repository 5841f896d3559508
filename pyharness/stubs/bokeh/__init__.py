"""Stand-in for bokeh: figures keep what is drawn in them and save() writes it as JSON."""
import stubgap

__getattr__ = stubgap.guard("bokeh")
