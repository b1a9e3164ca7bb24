#!/usr/bin/env python3
"""server.py PROPERTY [--replay FILE]: the checks that drive the whole server."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'server'))
import harness
MOD = {'C13': 'p_resp', 'C14': 'p_memcache', 'C15': 'p_http', 'C16': 'p_postgres', 'C17': 'p_cross', 'C18': 'p_split',
       'C19': 'p_bytes', 'C20': 'p_auth', 'C21': 'p_expiry', 'C22': 'p_counter', 'C23': 'p_glob', 'C24': 'p_save',
       'C25': 'p_savefault', 'C26': 'p_corrupt', 'C27': 'p_conc', 'C28': 'p_conns', 'C29': 'p_maxmem', 'C30': 'p_stats', 'C31': 'p_monitor', 'C32': 'p_stall', 'C33': 'p_opts', 'C34': 'p_sweep'}
harness.main(importlib.import_module(MOD[sys.argv[1]]).PROP(), sys.argv[2:])
