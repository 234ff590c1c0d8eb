"""Which families and models decide which property."""
PLAN = {
    'C01': {'families': [('bin', 8)], 'models': [('bin', 'binary'), ('bin', 'values')]},
    'C02': {'families': [('bin', 8)], 'models': [('bin', 'binary'), ('bin', 'values')]},
    'C03': {'families': [('text', 8)], 'models': [('text', 'text'), ('text', 'values')]},
    'C04': {'families': [('text', 8)], 'models': [('text', 'text'), ('text', 'values')]},
    'C05': {'families': [('bin', 2), ('text', 4), ('man', 1), ('block', 1)], 'models': [('bin', 'binary'), ('text', 'text')]},
    'C06': {'families': [('bin', 2), ('text', 4), ('man', 1), ('block', 1)], 'models': [('bin', 'binary'), ('text', 'text')]},
    'C07': {'families': [('proto', 8)], 'models': [('proto', 'protocol')]},
    'C08': {'families': [('man', 8)], 'models': [('man', 'managed')]},
    'C09': {'families': [('man', 8)], 'models': [('man', 'managed')]},
    'C24': {'families': [('bin', 2), ('text', 3), ('man', 3)], 'models': [('bin', 'binary'), ('text', 'text'), ('man', 'managed')]},
    'C12': {'families': [('write', 8)], 'models': [('write', 'write'), ('write', 'values')]},
    'C13': {'families': [('write', 8)], 'models': [('write', 'write')]},
    'C14': {'families': [('write', 8)], 'models': [('write', 'write'), ('write', 'values')]},
    'C15': {'families': [('write', 8)], 'models': [('write', 'write')]},
    'C16': {'families': [('dump', 8)], 'models': [('dump', 'dump')]},
    'C17': {'families': [('dump', 8)], 'models': [('dump', 'dump')]},
    'C18': {'families': [('dump', 8)], 'models': [('dump', 'dump')]},
    'C19': {'families': [('eq', 8)], 'models': [('eq', 'equal')]},
    'C20': {'families': [('stamp', 8)], 'models': [('stamp', 'stamp'), ('stamp', 'calendar')]},
    'C21': {'families': [('struct', 8)], 'models': [('struct', 'structs')]},
    'C22': {'families': [('buffer', 8)], 'models': [('buffer', 'buffer')]},
    'C10': {'families': [('table', 8)], 'models': [('table', 'tables')]},
    'C11': {'families': [('table', 8)], 'models': [('table', 'catalog')]},
    'C23': {'families': [('conv', 8)], 'models': [('conv', 'conversions')]},
    'C26': {'families': [('copy', 8)], 'models': [('copy', 'copies')]},
    'C25': {'families': [('mix', 8)], 'models': [('mix', 'side by side')]},
}
