"""What is tried for which property.  A family makes recipes (plain data), runs a recipe
through the code under test, and names the TLA+ module that judges the recording."""
import importlib

MODULES = ['fam_read', 'fam_write', 'fam_dump', 'fam_eq', 'fam_stamp', 'fam_struct', 'fam_buffer', 'fam_table', 'fam_conv', 'fam_mix', 'fam_copy']
FAMILIES = {}
for mod in MODULES:
    for f in importlib.import_module(mod).FAMILIES:
        FAMILIES[f.name] = f
