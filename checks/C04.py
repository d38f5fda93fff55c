from common import *
import consts
CONCRETE = True    # every obligation is evaluated on the state the real initialiser leaves
REPLAY_CMD = 'the driver native/dump.cpp, run with the initialisation order named in the obligation, prints the objects compared'
TRUSTED = ['g++ 13 (the initialisers are compiled and run natively)', 'certs.py (Pocklington certificates)', 'params.py (published curves, traces, affine group law)']
ASSUMPTIONS = ['the initialisers take no input: one execution per initialisation order is the whole input space; orders other than the nine listed are not run',
               'a curve order is identified among the orders of all twists by three random points']


def tasks(env):
    return list(consts.c04_tasks(env))
