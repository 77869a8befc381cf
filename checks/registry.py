"""Which models and conformance stages decide which property."""
from vlib.core import Model

TREE = [Model('MCTree', tier='quick'), Model('MCTree', 'MCTreeWide', tier='thorough')]
LEARN = [Model('MCLearn', tier='quick'), Model('MCLearn', 'MCLearnWide', tier='thorough')]
MASS = [('numeric', 'machine'), ('numeric', 'fit')]
PROPERTIES = {
    'C01': {
        'specs': ['IntervalTrace'],
        'models': [Model('MCIntervals')],
        'stages': [('intervals', 'pairs'), ('intervals', 'random')],
        'clauses': ['C01.', 'no-exception', 'process-'],
    },
    'C02': {
        'specs': ['IntervalTrace'],
        'models': [Model('MCIntervals')],
        'stages': [('intervals', 'random')],
        'clauses': ['C02.', 'process-'],
    },
    'C04': {
        'specs': ['MassTrace'],
        'models': [Model('MCMass')],
        'stages': MASS,
        'clauses': ['C04.', 'no-exception', 'process-'],
    },
    'C05': {
        'specs': ['MassTrace'],
        'models': [Model('MCMass')],
        'stages': [('numeric', 'fit')],
        'clauses': ['C05.', 'process-'],
    },
    'C06': {
        'specs': ['MassTrace'],
        'models': [Model('MCMass')],
        'stages': MASS,
        'clauses': ['C06.', 'process-'],
    },
    'C07': {
        'specs': ['DiscTrace'],
        'models': [Model('MCDiscrete')],
        'stages': [('discrete', 'discrete')],
        'clauses': ['C07.', 'no-exception', 'process-'],
    },
    'C08': {
        'specs': ['TreeTrace', 'MassTrace'],
        'models': LEARN,
        'stages': [('trees', 'learn'), ('numeric', 'fit')],
        'clauses': ['C08.', 'process-'],
    },
    'C09': {
        'specs': ['TreeTrace'],
        'models': LEARN,
        'stages': [('trees', 'learn')],
        'clauses': ['C09.', 'process-'],
    },
    'C10': {
        'specs': ['TreeTrace'],
        'models': TREE,
        'stages': [('trees', 'ask')],
        'clauses': ['C10.', 'process-'],
    },
    'C11': {
        'specs': ['TreeTrace'],
        'models': TREE,
        'stages': [('trees', 'ask')],
        'clauses': ['C11.', 'process-'],
    },
    'C12': {
        'specs': ['TreeTrace'],
        'models': TREE,
        'stages': [('trees', 'ask')],
        'clauses': ['C12.', 'process-'],
    },
    'C13': {
        'specs': ['TreeTrace'],
        'models': TREE,
        'stages': [('trees', 'ask')],
        'clauses': ['C13.', 'process-'],
    },
    'C14': {
        'specs': ['TreeTrace', 'MassTrace'],
        'models': TREE,
        'stages': [('trees', 'ask')] + MASS,
        'clauses': ['C14.', 'process-'],
    },
    'C15': {
        'specs': ['TreeTrace', 'MassTrace'],
        'models': TREE,
        'stages': [('trees', 'ask')] + MASS,
        'clauses': ['C15.', 'process-'],
    },
    'C16': {
        'specs': ['TreeTrace', 'MassTrace', 'DiscTrace', 'AssignTrace'],
        'models': [Model('MCVarMap')],
        'stages': [('trees', 'ask'), ('discrete', 'discrete'), ('maps', 'assign')] + MASS,
        'clauses': ['C16.', 'process-'],
    },
    'C17': {
        'specs': ['TreeTrace', 'MassTrace', 'DiscTrace'],
        'models': [Model('MCMass')],
        'stages': [('trees', 'ask'), ('discrete', 'discrete')] + MASS,
        'clauses': ['C17.', 'process-'],
    },
    'C18': {
        'specs': ['TreeTrace', 'MassTrace', 'DiscTrace'],
        'models': TREE,
        'stages': [('trees', 'ask'), ('discrete', 'discrete')] + MASS,
        'clauses': ['C18.', 'process-'],
    },
    'C19': {
        'specs': ['TreeTrace', 'MassTrace', 'DiscTrace'],
        'models': TREE,
        'stages': [('trees', 'ask'), ('discrete', 'discrete')] + MASS,
        'clauses': ['C19.', 'process-'],
    },
    'C03': {
        'specs': ['FuncTrace'],
        'models': [Model('MCFunc'), Model('MCFunc', 'MCFuncWide', tier='thorough')],
        'stages': [('functions', 'functions')],
        'clauses': ['C03.', 'process-'],
    },
    'C20': {
        'specs': ['VarMapTrace', 'AssignTrace'],
        'models': [Model('MCVarMap')],
        'stages': [('maps', 'maps'), ('maps', 'assign')],
        'clauses': ['C20.', 'process-'],
    },
    'C21': {
        'specs': ['HeapTrace'],
        'models': [Model('MCHeap', tier='quick'), Model('MCHeap', 'MCHeapWide', tier='thorough')],
        'stages': [('heap', 'heap')],
        'clauses': ['C21.', 'process-'],
    },
    'C22': {
        'specs': ['SeqTrace'],
        'models': [Model('MCChain', tier='quick'), Model('MCChain', 'MCChainWide', tier='thorough')],
        'stages': [('sequences', 'sequences')],
        'clauses': ['C22.', 'process-'],
    },
    'C24': {
        'specs': ['ScaleTrace', 'AssignTrace'],
        'models': [Model('MCScale', tier='quick'), Model('MCScale', 'MCScaleWide', tier='thorough')],
        'stages': [('maps', 'assign'), ('scaled', 'numeric'), ('scaled', 'trees')],
        'clauses': ['C24.', 'process-'],
    },
    'C23': {
        'specs': ['TreeTrace'],
        'models': TREE,
        'stages': [('trees', 'ask')],
        'clauses': ['C23.', 'process-'],
    },
}

NOT_CLAIMED = {}
