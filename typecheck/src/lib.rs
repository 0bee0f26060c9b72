//! Only here to have papaya and its dependencies compiled; the programs are generated by typecheck.py.
