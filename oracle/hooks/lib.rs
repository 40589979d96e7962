// re-exports, one line per hooked module; filtered per property by tools/check.py
