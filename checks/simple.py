"""Checks that consist of one harness run: simple.py <ID>"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vlib import *
C26_LD = '-lz -Wl,--wrap=malloc,--wrap=realloc'
SIMPLE = {
    # id: (variant, harness sources)
    'C06': ('asanl', ['c06_string.cpp']),
    'C07': ('asanl', ['c07_main.cpp'] + ['c07_%s.cpp' % x for x in 'abcdefghi']),
    'C08': ('asanl', ['c08_bitset.cpp']),
    'C10': ('asanl', ['c10_path.cpp']),
    'C12': ('asanl', ['c12_settings.cpp']),
    'C11': ('asanl', ['c11_style.cpp']),
    'C13': ('asanl', ['c13_var.cpp']),
    'C14': ('asanl', ['c14_image.cpp']),
    'C15': ('asanl', ['c15_oom.cpp'], {'ldflags': '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=aligned_alloc'}),
    'C16': ('asanl', ['c16_file.cpp']),
    'C17': ('asanl', ['c17_cover.cpp']),
    'C18': ('asanl', ['c18_clip.cpp']),
    'C19': ('asanl', ['c19_comp.cpp']),
    'C21': ('asanl', ['c21_sample.cpp']),
    'C23': ('asanl', ['c23_geom.cpp']),
    'C24': ('asanl', ['c24_stroke.cpp']),
    'C32': ('asanl', ['c32_tables.cpp']),
    'C31': ('asanl', ['c31_fontdamage.cpp'], dict(ldflags=C26_LD)),
    'C20': ('rel', ['c20_state.cpp']),
    'C22': ('asanl', ['c22_pixconv.cpp']),
    'C25': ('asanl', ['c25_roundtrip.cpp'], dict(ldflags='-lz')),
    'C26': [('asanl', ['c26_damage.cpp'], dict(ldflags=C26_LD)), ('msanl', ['c26_damage.cpp'], dict(ldflags=C26_LD, harness_flags='-O1 -g1 -fsanitize=memory -fno-omit-frame-pointer -D_GLIBCXX_EXTERN_TEMPLATE=0'))],
    'C29': ('asanl', ['c29_decode.cpp'], dict(ldflags='-lz')),
    'C33': ('asanl', ['c33_scale.cpp']),
    'C34': ('asanl', ['c34_handles.cpp']),
    'C28': ('asanl', ['c28_checksum.cpp']),
    'C30': ('asanl', ['c30_unicode.cpp']),
    'C01': ('mc', ['c01_render.cpp', 'mc_rt.cpp']),
    'C02': ('mc', ['c02_pool.cpp', 'mc_rt.cpp']),
    'C03': ('mc', ['c03_thread.cpp', 'mc_rt.cpp']),
    'C04': ('mc', ['c04_shared.cpp', 'mc_rt.cpp']),
    'C05': ('mc', ['c05_registry.cpp', 'mc_rt.cpp']),
    'C27': ('asanl', ['c27_deflate.cpp'], dict(ldflags='-lz')),
    'C09': ('asanl', ['c09_bitarray.cpp']),
}
pid = sys.argv[1]
def run(c):
    v = SIMPLE[pid]
    # One id can be run in several variants, each with build options of its own.
    runs = v if isinstance(v, list) else [v]
    n = s = 0
    for v in runs:
        d = build(v[0], {pid.lower(): v[1]}, **(v[2] if len(v) > 2 else {}))
        r = c.run(d + '/' + pid.lower(), label=pid if len(runs) == 1 else pid + ' ' + v[0], args=['--budget', str((700 if TIER == 'thorough' else 150) // len(runs))], timeout=820 // len(runs) if TIER == 'thorough' else 300)
        t = r.stats.get('transitions', 0)
        n += t
        s += r.stats.get('states', t)
    return dict(states=s, transitions=n, traces_validated_against_impl=n)
main(pid, run, 'model_checking')
