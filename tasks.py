"""The analyses of the C sources: each one is a harness of /verif/harness
compiled with sources of /repo in one configuration, and interpreted
abstractly (sa/interp.py) from its function entry()."""

import os

REPO = os.environ.get('DETOOLS_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

ALL = ('NONE', 'LZMA', 'CRLE', 'HEATSHRINK')


def only(*names):
    """Configuration with the compressions given only."""
    return ['-DDETOOLS_CONFIG_COMPRESSION_%s=%d' % (n, int(n in names))
            for n in ALL]


NOFILE = ['-DDETOOLS_CONFIG_FILE_IO=0']
CONTRACT = ['-DK=-1'] + only('NONE') + NOFILE
KINDS = {
    'none': ['-DK=0'] + only('NONE') + NOFILE,
    'lzma': ['-DK=1'] + only('LZMA') + NOFILE,
    'crle': ['-DK=2'] + only('CRLE') + NOFILE,
    'heatshrink': ['-DK=4'] + only('HEATSHRINK') + NOFILE,
    'heatshrink-alloc': ['-DK=4', '-DHEATSHRINK_DYNAMIC_ALLOC=1']
    + only('HEATSHRINK') + NOFILE,
}

DETOOLS = ['c/detools.c']

# name -> (harness, sources, flags, approximate cost in seconds)
TASKS = {
    'seq-machine': ('seq_machine.c', DETOOLS, CONTRACT),
    'seq-finalize': ('seq_finalize.c', DETOOLS, CONTRACT),
}
for _k, _f in KINDS.items():
    TASKS['seq-header-' + _k] = ('seq_header.c', DETOOLS, _f)
    TASKS['reader-' + _k] = ('reader.c', DETOOLS, _f)
    TASKS['deliver-' + _k] = ('deliver.c', DETOOLS, _f)
    TASKS['dump-' + _k] = ('dump.c', DETOOLS, _f)

# In-place patches: without step callbacks, with them and never interrupted,
# resumed.  The shifting of the from data is analysed for fixed segment sizes
# (the machine for any).
for _m in '012':
    TASKS['ip-machine-' + _m] = ('ip_machine.c', DETOOLS,
                                 CONTRACT + ['-DMODE=' + _m])
    TASKS['ip-finalize-' + _m] = ('ip_finalize.c', DETOOLS,
                                  CONTRACT + ['-DMODE=' + _m])
    for _s in (64, 4096):
        TASKS['ip-header-%d-%s' % (_s, _m)] = (
            'ip_header.c', DETOOLS,
            KINDS['none'] + ['-DSEGMENT=%d' % _s, '-DMODE=' + _m])

# The contents: which bytes are read from where, and written.
TASKS['seq-content'] = ('seq_content.c', DETOOLS, CONTRACT)
TASKS['seq-content-finalize'] = ('seq_content.c', DETOOLS,
                                 CONTRACT + ['-DFINALIZE'])
for _m in '012':
    TASKS['ip-content-' + _m] = ('ip_content.c', DETOOLS,
                                 CONTRACT + ['-DMODE=' + _m])
    TASKS['ip-content-finalize-' + _m] = (
        'ip_content.c', DETOOLS, CONTRACT + ['-DMODE=' + _m, '-DFINALIZE'])

# The contents of the headers (given in chunks of one byte or two).
for _c in '12':
    TASKS['seq-head-' + _c] = ('seq_head.c', DETOOLS,
                               KINDS['none'] + ['-DCOUNT=' + _c])
    for _m in '012':
        TASKS['ip-head-%s-%s' % (_m, _c)] = (
            'ip_head.c', DETOOLS,
            KINDS['none'] + ['-DMODE=' + _m, '-DCOUNT=' + _c])

# Files, and patches fed by callbacks.
FILES = ['-DK=0', '-DDETOOLS_CONFIG_FILE_IO=1'] + only('NONE')
TASKS['callbacks'] = ('callbacks.c', DETOOLS, KINDS['none'])
TASKS['callbacks-in-place'] = ('callbacks.c', DETOOLS,
                               KINDS['none'] + ['-DINPLACE'])
TASKS['files'] = ('files.c', DETOOLS, FILES)
TASKS['files-in-place'] = ('files.c', DETOOLS, FILES + ['-DINPLACE'])

# The heatshrink decoder.
DECODER = ['c/heatshrink/heatshrink_decoder.c']
TASKS['decoder-static'] = ('decoder.c', DECODER, [])
for _w, _l in ((4, 3), (8, 4), (8, 7), (9, 8), (10, 9), (12, 4), (15, 14)):
    TASKS['decoder-%d-%d' % (_w, _l)] = (
        'decoder.c', DECODER,
        ['-DHEATSHRINK_DYNAMIC_ALLOC=1', '-DWINDOW=%d' % _w,
         '-DLOOKAHEAD=%d' % _l])

# Creating a patch with the extension module: one part of the patch from any
# positions (its structure, and the contents of its diff and extra data), and
# the loop over the parts.
for _n, _f in (('part', ['-DPART', '-DCONTENT=0']),
               ('search', ['-DSEARCH', '-DCONTENT=0']),
               ('loop', ['-DLOOP', '-DCONTENT=0']),
               ('diff', ['-DPART', '-DCONTENT=1']),
               ('extra', ['-DPART', '-DCONTENT=2'])):
    TASKS['bsdiff-' + _n] = ('bsdiff.c', [], _f + ['-Wno-everything'])
