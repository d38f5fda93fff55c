from common import *
import consts
CONCRETE = True    # every obligation is evaluated on the state the real initialiser leaves
REPLAY_CMD = 'the driver native/dump.cpp, run with the initialisation order named in the obligation, prints the objects compared'
TRUSTED = ['g++ 13 (the initialisers are compiled and run natively)', 'certs.py (Pocklington certificates, exact multiplicative orders)', 'params.py (published primes, towers)']
ASSUMPTIONS = ['the initialisers take no input: one execution per initialisation order is the whole input space; orders other than the nine listed are not run',
               'configuration as built (64-bit limbs); the 32-bit branches of the initialisers are not compiled']


def tasks(env):
    return list(consts.c03_tasks(env))
