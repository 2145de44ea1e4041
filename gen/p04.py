import types_only
SUMMARY = types_only.SUMMARY
generate = types_only.make('p04', 'p04_common.hpp', lambda n, i: 'ST(%s)' % n.cpp, 6, 3, 20, 8)
