import types_only
SUMMARY = types_only.SUMMARY
generate = types_only.make('p06', 'p06_common.hpp', lambda n, i: 'SZ(%s, %s)' % (n.lv, n.cpp), 30, 4, 100, 8, 4)
