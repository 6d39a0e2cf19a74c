"""Selection operators of the concrete contracts."""
OPS = {'min': lambda v, x: v > x, 'mineq': lambda v, x: v >= x,
       'max': lambda v, x: v < x, 'maxeq': lambda v, x: v <= x,
       'equal': lambda v, x: v == x}
