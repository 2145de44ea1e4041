import typegen
SUMMARY = {}
HDR, REG, N, F, TN, TF, DEPTH = None, None, 8, 4, 16, 8, 3
def make(name, header, reg, n, f, tn, tf, depth=3):
    def generate(d, seed, tier):
        files, summ = typegen.emit(d, 'gen_' + name, header, seed, tn if tier == 'thorough' else n, tf if tier == 'thorough' else f, reg, depth)
        SUMMARY.update({'contained_types': len(summ), 'distinct': len(set(summ)), 'examples': summ[:8]})
        return files
    return generate
