"""Which tasks decide which property."""
from .spec import BASIC

STREAM = 'streams, strings and encoded arrays stay below 4 GiB (a D-Bus message is at most 128 MiB)'
WF = 'values are well-formed: an empty array and a dict entry have been given their signature'
UNMARSHALL = 'the contract of unmarshallData, which the check of C05 discharges'
READ = 'operator<< of an integer writes its decimal representation, std::stoi and std::stoul read it back'
CONTAINERS = ['Array', 'Struct', 'DictEntry', 'Variant', 'Empty', 'Other']
DECODE = [('t_decode', (BASIC + CONTAINERS[:-1],))]
CREATE = [('t_types', (('align', 'create', 'ext', 'sig', 'basic'),))]
PROPS = {
    'C02': {'tasks': [('t_decode', (BASIC,)), ('t_types', (('align', 'create', 'sig'),))], 'driver': 'types',
            'assumptions': [STREAM]},
    'C03': {'tasks': DECODE + CREATE, 'driver': 'types', 'assumptions': [STREAM],
            'focus': '^safe: |refused by an exception'},
    'C05': {'tasks': DECODE + CREATE, 'driver': 'types', 'assumptions': [STREAM]},
    'C06': {'tasks': DECODE + CREATE, 'driver': 'types', 'assumptions': [STREAM],
            'focus': 'terminates|depth|consumed|no such value are refused|unknown codes'},
    'C01': {'tasks': [('t_marshal', (BASIC,)), ('t_types', (('align', 'sig'),))], 'driver': 'types',
            'assumptions': [STREAM]},
    'C04': {'tasks': [('t_marshal', (CONTAINERS,)), ('t_types', (('align', 'sig', 'ext'),))], 'driver': 'types',
            'assumptions': [STREAM, WF]},
    'C07': {'tasks': [('t_types', (('ext',),))], 'driver': 'types', 'assumptions': []},
    'C08': {'tasks': [('t_types', (('align', 'create', 'own', 'sig', 'basic'),))], 'driver': 'types', 'assumptions': []},
    'C09': {'tasks': [('t_types', (('access',),))], 'driver': 'types',
            'assumptions': [READ]},
    'C13': {'tasks': [('t_message', (('C13',),)), ('t_marshal', (BASIC + CONTAINERS,)), ('t_types', (('align', 'sig', 'ext'),))],
            'driver': 'message', 'assumptions': [STREAM, WF]},
    'C14': {'tasks': [('t_message', (('C14',),)), ('t_types', (('align', 'create', 'ext', 'sig', 'access', 'text'),))],
            'driver': 'message', 'assumptions': [STREAM, UNMARSHALL, READ]},
    'C16': {'tasks': [('t_message', (('C16',),)), ('t_types', (('create', 'ext', 'sig', 'access', 'text'),))],
            'driver': 'message', 'assumptions': [STREAM, UNMARSHALL, READ]},
    'C15': {'tasks': [('t_misc', (('C15',),))], 'driver': 'misc', 'assumptions': []},
    'C22': {'tasks': [('t_misc', (('C22',),))], 'driver': 'misc', 'assumptions': []},
    'C23': {'tasks': [('t_misc', (('C23',),))], 'driver': 'misc', 'assumptions': []},
    'C25': {'tasks': [('t_misc', (('C25',),))], 'driver': 'misc',
            'assumptions': ['operator>> of a word and of a hexadecimal number, and operator<< of a hexadecimal number, as in the C++ standard']},
    'C26': {'tasks': [('t_misc', (('C26',),))], 'driver': 'misc', 'assumptions': []},
}
