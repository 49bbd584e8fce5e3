'''Abstract interpreter for the Python subset used by /repo (see DESIGN.md).'''
