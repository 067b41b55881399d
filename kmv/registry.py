"""Property -> check."""
import importlib

WHERE = {
    'C01': 'km_checks.c01', 'C02': 'km_checks.c02', 'C03': 'km_checks.c03', 'C04': 'km_checks.c04',
    'C05': 'km_checks.c05', 'C06': 'km_checks.c06', 'C07': 'km_checks.c07',
    'C08': 'funcs.c08', 'C09': 'funcs.c09', 'C10': 'funcs.c10',
    'C11': 'matrix.c11', 'C12': 'matrix.c12', 'C13': 'matrix.c13',
    'C14': 'kset.c14', 'C15': 'kset.c15',
    'C16': 'composite.c16',
    'C17': 'bucket.c17',
    'C18': 'ranking.c18', 'C19': 'ranking.c19',
    'C20': 'estim.c20', 'C21': 'estim.c21', 'C22': 'estim.c22',
    'C23': 'fixed.c23',
    'C24': 'memory.c24',
    'C25': 'km_checks.c25',
    'C26': 'text.c26',
    'C27': 'tooling.c27',
    'C28': 'rejects.c28',
    'C29': 'fleet.c29',
    'C30': 'interface.c30',
    'C31': 'helpers.c31',
}


def check(prop):
    mod, fn = WHERE[prop].split('.')
    return getattr(importlib.import_module('kmv.' + mod), fn)
