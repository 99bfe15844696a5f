"""The properties: what is claimed, and which analyses decide it."""

import re

import cengine
import pengine
from tasks import KINDS

TRUSTED = {
    'c': ['clang-18 as the front end', 'sa/ (the abstract interpreter)',
          'sa/clib.py (models of the C library and of liblzma)',
          'harness/ (callbacks, contracts and invariants)'],
    'python': ['pa/ (the abstract interpreter of Python)',
               'pa/lib.py (models of the Python library)',
               'pa/container.py (models of the extension modules and '
               'the grammars)'],
    'bits': ['clang-18 as the front end', 'sa/bits.py, sa/bitir.py and '
             'pa/bitpy.py (the evaluators)', 'pa/codec.py (the encoding)'],
}

PROPS = {}


def prop(id, **kw):
    kw.setdefault('engine', 'c')
    kw.setdefault('level', 'other')
    kw.setdefault('expect', [])
    PROPS[id] = kw


SEQ = ['seq-machine', 'seq-finalize']
HEADERS = ['seq-header-' + k for k in
           ('none', 'lzma', 'crle', 'heatshrink', 'heatshrink-alloc')]
READERS = ['reader-' + k for k in
           ('none', 'lzma', 'crle', 'heatshrink', 'heatshrink-alloc')]

DELIVER = ['deliver-' + k for k in KINDS]

DECODERS = ['decoder-static', 'decoder-4-3', 'decoder-8-4', 'decoder-8-7',
            'decoder-9-8', 'decoder-10-9', 'decoder-12-4', 'decoder-15-14']

IP = ['ip-%s-%s' % (h, m) for h in ('finalize', 'machine', 'header-64')
      for m in '210']
IP_THOROUGH = ['ip-header-4096-' + m for m in '210']

INV = r'rule:inv: '
MEMORY = [r'memory', r'uninit', r'arith', r'access$', r'initialised$',
          r'division$', r'shift$', r'decoder$', INV,
          r'rule:no more bytes than asked for',
          r'rule:output is within the output buffer',
          r'rule:the output buffer is full', r'rule:(some|no) input is used',
          r'rule:(decoding|giving input|finishing) never fails']

prop('M01', tasks=IP + SEQ + HEADERS + READERS + DECODERS, thorough=IP_THOROUGH, rules=MEMORY,
     expect=['access', 'initialised', 'shift'],
     explanation=(
         'The appliers (in-place: machine, header with segment size 64, '
         'finalize; sequential: machine, header and finalize) and the patch '
         'readers of each compression (none, LZMA, CRLE, heatshrink static '
         'and dynamic) are interpreted abstractly from every state in which '
         'their invariant holds, with unknown patch bytes, chunk sizes and '
         'callback results. Every memory access, arithmetic operation, '
         'shift, division, use of a value and call of the C library or '
         'liblzma on every path is an obligation (memory, uninit, arith, '
         'access, ...). The invariants are shown to be inductive (rules inv: '
         '...).'))

prop('M02', tasks=SEQ, rules=[
    INV,
    r'rule:output stays within', r'rule:the to offset is',
    r'rule:done only when', r'rule:success only when',
    r'rule:success returns', r'rule:data sizes stay'],
    explanation=(
         'The sequential machine is interpreted from every state in which '
         'its invariant holds; at every to_write call and at every return '
         'the number of bytes written is compared with to_offset, to_size '
         'and the result (linear relations). The reader is any that fulfils '
         'the contract proved of each reader in M01 and M04.'))

prop('M03', tasks=['seq-content', 'seq-content-finalize', 'seq-head-1',
                   'seq-head-2'] + DELIVER, rules=[r'.*'],
     expect=['rule:diff data is added', 'rule:extra data is written',
             'rule:a patch is rejected only', 'rule:numbers are read',
             'rule:a header is rejected only', 'rule:the header is read'],
     explanation=(
         'Product of the sequential machine with a reference model of the '
         'patch grammar (harness/model.h): every byte taken from the reader '
         'is fed to the model, one byte of the output at a symbolic position '
         'is tracked, and at each write the byte written is compared with '
         'what the model says belongs at its position.'))

prop('M10', tasks=['dump-' + k for k in KINDS], rules=[r'.*'],
     expect=['rule:the state is restored', 'rule:the to offset is restored',
             'rule:the size of the data left is restored',
             'rule:numbers partly read are restored',
             'rule:the state of the decompressor is restored',
             'rule:the from data is moved to where it was',
             'rule:an application dumped before its header starts over'],
     explanation=(
         'dump is interpreted from every state in which the invariant of the '
         'applier holds (per compression), the dumped bytes are restored '
         'into a new object after all pointers and the old object have been '
         'invalidated, and every field that matters is compared with what it '
         'was; the invariant must hold again.'))

prop('M11', tasks=['callbacks', 'callbacks-in-place', 'files',
                   'files-in-place'], rules=[r'.*'],
     expect=['rule:each byte of the patch is fed in order',
             'rule:the application is finalized',
             'rule:failures are reported',
             'rule:all files that have been opened are closed',
             'rule:data is written where it belongs'],
     explanation=(
         'detools_apply_patch_callbacks, ..._filenames and the in-place '
         'variants are interpreted with models of stdio in which any call '
         'may fail; the application itself is replaced by its contract '
         '(process, finalize; callbacks for the file functions), and one '
         'byte at a symbolic position of each file is tracked.'))

prop('M12', tasks=DELIVER, rules=[r'.*'],
     expect=['rule:patch bytes are used exactly once',
             'rule:patch bytes are decompressed in order',
             'rule:decompressed data is delivered in order',
             'rule:decompressed data is delivered exactly once',
             'rule:the decoder is set up as the header says',
             'rule:bytes left in the segment', 'rule:the kind of the segment',
             'rule:the size of the segment'],
     explanation=(
         'One call of each patch reader (none, LZMA, CRLE, heatshrink static '
         'and dynamic) is interpreted from every state between calls, with '
         'decoders of which only the interface is known; one byte of the '
         'patch and one of the decompressed data, at symbolic positions, are '
         'tracked from where they come from to where they go, and the bytes '
         'used, left and delivered are counted. CRLE is compared with the '
         'format: 16 cases of a segment being read.'))

prop('M09', tasks=['ip-content-0', 'ip-content-1', 'ip-content-finalize-0',
                   'ip-head-0-1', 'ip-head-0-2'] + DELIVER,
     thorough=['ip-content-2', 'ip-content-finalize-1',
               'ip-content-finalize-2', 'ip-head-1-1', 'ip-head-1-2',
               'ip-head-2-1', 'ip-head-2-2'],
     rules=[r'.*'],
     expect=['rule:diff data is added', 'rule:extra data is written',
             'rule:a patch is rejected only', 'rule:numbers are read',
             'rule:a header is rejected only', 'rule:the header is read'],
     explanation=(
         'As M03 for in-place patches: product of the in-place machine with '
         'the reference model; one byte of a segment at a symbolic position '
         'is tracked from where it is read to where it is written.'))

prop('M05', tasks=IP, thorough=IP_THOROUGH, rules=[
    INV,
    r'rule:(reads|writes|erases) ', r'rule:only erased memory',
    r'rule:output stays', r'rule:the output', r'rule:everything ',
    r'rule:only erased memory', r'rule:erased memory is',
    r'rule:the segment is', r'rule:data sizes stay', r'rule:a step writes',
    r'rule:done only when', r'rule:success ', r'rule:memory is not touched',
    r'rule:the patch data is read after'],
    expect=['rule:reads are within', 'rule:writes are within',
            'rule:erases are within', 'rule:the output is written in order'],
    explanation=(
         'The in-place applier (machine, header, finalize; not interrupted, '
         'with step callbacks, resumed) is interpreted from every state in '
         'which its invariant holds; every mem_read, mem_write and mem_erase '
         'call is an obligation on its address, size and what has been '
         'erased.'))

prop('M08', tasks=IP, thorough=IP_THOROUGH, rules=[
    INV,
    r'rule:from data is read', r'rule:the from data is moved',
    r'rule:a step reads nothing', r'rule:a step starts with erasing',
    r'rule:only erased memory', r'rule:the segment is erased',
    r'rule:the patch data is read after', r'rule:memory is not touched'],
    expect=['rule:from data is read', 'rule:the from data is moved',
            'rule:a step reads nothing'],
    explanation=(
         'As M05; the obligations are on where from data is read and where '
         'the shift moves it (the shift with segment sizes 64 and, thorough, '
         '4096; the rest for any).'))

prop('M06', tasks=IP, thorough=IP_THOROUGH, rules=[
    INV,
    r'rule:memory is accessed only', r'rule:a step', r'rule:steps are',
    r'rule:no step is', r'rule:every step', r'rule:the last step',
    r'rule:nothing is done after', r'rule:only erased memory',
    r'rule:erased memory is', r'rule:everything ',
    r'rule:the segment is erased', r'rule:success only when the last step',
    r'rule:memory is not touched', r'rule:callbacks get'],
    expect=['rule:memory is accessed only', 'rule:steps are completed in',
            'rule:a step reads nothing it', 'rule:no step is skipped'],
    explanation=(
         'As M05 with the step callbacks, not interrupted and resumed at any '
         'step: obligations tie each memory access to the step it belongs '
         'to, and each step_set to the work of the step being complete.'))

prop('M04', tasks=IP + SEQ + READERS, thorough=IP_THOROUGH, rules=[
    r'rule:no callback is called after',
    r'rule:a failed callback', r'rule:an error makes',
    r'rule:a failed application', r'rule:a callback failure',
    r'rule:a patch reader failure', r'rule:a failed patch reader',
    r'rule:the patch reader is not used after',
    r'rule:documented return values'],
    explanation=(
         'All C analyses: callbacks fail with any non-zero value at any '
         'call; obligations at every later callback call and at every '
         'return.'))

prop('M07', tasks=IP + SEQ + HEADERS + READERS + DECODERS
     + ['callbacks', 'callbacks-in-place', 'files', 'files-in-place'],
     thorough=IP_THOROUGH, rules=[
    r'rule:the application is finalized', r'rule:all files that have been',
    r'rule:open files are used', r'rule:files are opened once',
    r'leak', r'release$', r'rule:everything is released',
    r'rule:the patch reader is released', r'rule:the patch reader is used',
    r'rule:finalizing releases', r'rule:the decoder is',
    r'memory:.*(releas|stale|not valid|no longer valid|ended when|not open)'],
    expect=['release', 'rule:everything is released',
            'rule:finalizing releases', 'rule:the application is finalized',
            'rule:all files that have been opened are closed'],
    explanation=(
         'All C analyses: allocation, decoder and file typestates, at each '
         'return of finalize and of the functions that apply files and feed '
         'patches, on each path, also those where acquiring fails.'))


def py(module, fn, arg=None, name=None):
    return (name or '%s.%s' % (module, fn), pengine.run, (module, fn, arg))


prop('W01', engine='python',
     runs=[py('container', 'sequential'), py('container', 'hdiffpatch'),
           py('container', 'bsdiff'), py('codec', 'bsdiff_numbers')],
     rules=[r'rule:format', r'rule:number', r'rule:cases', r'rule:suffix array',
            r'rule:compression', r'compressor'],
     expect=['rule:format', 'rule:suffix array', 'compressor'],
     explanation=(
         'create_patch() is interpreted abstractly (Python syntax trees) for '
         'symbolic images, each compression and data format; what is written '
         'to the patch file and given to the compressor is a term that is '
         'parsed by a monitor of the format.'))

prop('W02', engine='python',
     runs=[py('container', 'in_place_default')],
     rules=[r'rule:format', r'rule:cases', r'rule:suffix array',
            r'rule:compression', r'rule:segments', r'compressor'],
     expect=['rule:format', 'rule:segments', 'compressor'],
     explanation=(
         'As W01 for in-place patches with symbolic memory, segment and '
         'minimum shift sizes; the loop over the segments is solved by a '
         'fixpoint over linear relations.'))

prop('Y01', engine='python',
     runs=[py('reading', 'sequential'), py('reading', 'hdiffpatch'),
           py('codec', 'python_sizes')],
     rules=[r'rule:'],
     expect=['rule:order', 'rule:output', 'rule:complete', 'rule:limits',
             'rule:header'],
     explanation=(
         'apply_patch() is interpreted abstractly; the decompressed data is '
         'a monitor of the patch grammar that gives each number and chunk '
         'read a meaning, and each write is compared with what belongs at '
         'its position.'))


prop('W04', engine='bits',
     runs=[py('codec', 'python_numbers'), py('codec', 'extension'),
           py('codec', 'applier')],
     rules=[r'rule:number'], expect=['rule:number'],
     explanation=(
         'Each function that writes or reads a number is evaluated in a '
         'domain of bit vectors that tell from which bit of the input each '
         'bit comes, once for each sign and length of the number; the bytes '
         'written and the numbers read are compared with the encoding.'))


prop('E01', engine='bits',
     runs=[py('pyext', 'module', 'detools/bsdiff.c',
              'pyext.bsdiff'),
           py('pyext', 'module', 'detools/suffix_array.c',
              'pyext.suffix_array')],
     rules=[r'rule:'],
     expect=['rule:buffers', 'rule:exceptions', 'rule:release',
             'rule:references', 'rule:live'],
     explanation=(
         'Each function in the method tables of the extension modules is '
         'interpreted path by path, with the functions it calls; each call '
         'of the Python API that may fail does so on one path. References, '
         'buffers and the exception state are tracked, and checked at each '
         'use and return.'))


prop('E02', limit=600, tasks=['bsdiff-part', 'bsdiff-loop', 'bsdiff-search'],
     rules=[r'memory', r'uninit', r'arith', r'access$', r'initialised$',
            r'division$', r'signed-overflow$',
            r'rule:(?!.* data is the )'],
     expect=['access', 'rule:diff data is within both images',
             'rule:extra data is within the new image',
             'rule:the from position is within the old image',
             'rule:the whole new image is covered',
             'rule:the match is within the old image'],
     explanation=(
         'create_patch_loop(), write_diff_extra_and_adjustment() and '
         'search() of the bsdiff extension module are each interpreted '
         'abstractly, for images of any size and contents and from any '
         'positions; the first two use contracts of what they call, that the '
         'analyses of the others decide. A monitor of the Python API '
         'follows the sizes, data and adjustments appended to the patch.'))

prop('E03', limit=600, tasks=['bsdiff-diff', 'bsdiff-extra'],
     rules=[r'rule:.* data is the '],
     expect=['rule:diff data is the difference of the images',
             'rule:extra data is the new image'],
     explanation=(
         'As E02 for write_diff_extra_and_adjustment(), with one byte at any '
         'position of each image watched: the byte of the data appended at '
         'that position is compared with it.'))


def jobs(id, tier):
    p = PROPS[id]
    limit = p.get('limit', 240) if tier == 'quick' else 800
    out = []
    tasks = p.get('tasks', [])
    if tier == 'thorough':
        tasks = p.get('thorough', []) + tasks
    for t in tasks:
        out.append((t, cengine.run, t, limit, tier))
    for name, fn, arg in p.get('runs', []):
        out.append((name, fn, arg, limit, tier))
    return out


def selected(id, task, rule):
    return any(re.match(r, rule) for r in PROPS[id]['rules'])
