from .common import REG, LEMMAS
from . import predicates, bbox, order, edges, polyline
from . import regions, store, insertion, cavity, triangulator, interface
