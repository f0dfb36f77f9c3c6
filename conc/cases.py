import importlib
MODS={'C01':'sim','C02':'sim','C03':'mats','C04':'mats','C05':'mats','C06':'meas','C07':'meas','C08':'regs','C09':'circ','C10':'circ','C11':'circ',
 'C12':'appl','C13':'appl','C14':'text','C15':'text','C16':'text','C17':'prim','C18':'prim','C19':'state','C20':'prim','C21':'circ','C22':'mem'}
def load(prop): return importlib.import_module('conc.'+MODS[prop])
