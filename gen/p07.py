import types_only
SUMMARY = types_only.SUMMARY
generate = types_only.make('p07', 'p07_common.hpp', lambda n, i: 'LV(%s, %s)' % (n.lv, n.cpp), 10, 4, 40, 8)
