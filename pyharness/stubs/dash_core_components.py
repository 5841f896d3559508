from dash._record import library

library(globals(), "dcc")
