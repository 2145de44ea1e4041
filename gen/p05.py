import types_only
SUMMARY = types_only.SUMMARY
generate = types_only.make('p05', 'p05_common.hpp', lambda n, i: 'NE(%d, %s)' % ([2, 3, 2, 5][i % 4], n.cpp), 4, 4, 14, 8)
