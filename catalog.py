"""What the driver knows about each property's check."""

# id: (harness, cases in the quick tier, cases in the thorough tier, level,
#      how cases are made and what makes one non-trivial)
CHECKS = {
    'C01': ('c', 60000, 2500000, 'exploration',
            'A random sequence of diff/extra/adjustment operations over random from-data is encoded by the '
            "check's own encoder (every compression the build knows, random size encodings, heatshrink "
            'windows and match choices), cut into random chunks and applied; a few cases have giant '
            'outputs. Non-trivial: both diff and extra data occur and the to-data has at least 2 bytes '
            '(or a giant case).'),
    'C02': ('c', 60000, 2500000, 'exploration',
            'A random in-place geometry (memory, segment, shift, from and to sizes) and a random patch for '
            'it, applied in random chunks to a simulated flash with bounds and erase-before-write rules. '
            'Non-trivial: diff data occurs and the to-data spans more than one segment.'),
    'C03': ('c', 40000, 1500000, 'fault_enumeration',
            'A C02 case in which the power is lost at random callbacks (mid write, mid erase, before or '
            'after the step is stored), up to several times, each followed by a full restart on the '
            'memory as it was left. Non-trivial: at least one loss happened, one restart resumed past '
            'step zero and the to-data spans more than one segment.'),
    'C04': ('c', 40000, 1500000, 'exploration',
            'A C01 case whose context is dumped at random points between chunks, destroyed, restored into '
            'a fresh context and continued with the patch from the stored offset, as often as drawn. '
            'Non-trivial: at least one dump lies strictly inside the patch and the to-data has at least '
            '2 bytes.'),
    'C05': ('c', 60000, 4000000, 'exploration',
            'Patches that are random bytes, valid patches with mutations, or encoded operation sequences '
            'with hostile numbers, against random from-data and chunking. Non-trivial: the header was '
            'accepted and from-data was read, to-data was written or processing failed part-way.'),
    'C06': ('c', 60000, 4000000, 'exploration',
            'In-place patches that are random bytes, valid ones with mutations, or encoded with hostile '
            'geometry and numbers, on a guarded memory. Non-trivial: the header was accepted and memory '
            'was read or written or processing failed part-way.'),
    'C07': ('c', 16000, 600000, 'fault_enumeration',
            'A valid patch is cut after every length (or a random half of them when long). Non-trivial: '
            'more than the header cuts were tried and the to-data has at least 2 bytes.'),
    'C08': ('c', 16000, 600000, 'fault_enumeration',
            'A valid patch is applied once per callback invocation of the clean run, with that invocation '
            'failing with a drawn code (random sample when there are many). Non-trivial: more than two '
            'failing runs and the to-data has at least 2 bytes.'),
    'C09': ('c', 8000, 120000, 'exploration',
            'A valid or damaged patch goes through the low level functions, the callback function, the '
            'file function and the command line program, with real files, pipes, short reads, missing '
            'files and full devices. Non-trivial: the to-data has at least 2 bytes.'),
    'C10': ('c', 60000, 3000000, 'exploration',
            'Random heatshrink bit streams (literals and back-references, also before the start, random '
            'window and lookahead) through the C decoder in random sink/poll sizes, against a decoder '
            'written from the format. Non-trivial: more than 8 bytes of output from more than 2 symbols.'),
    'C11': ('c', 15000, 500000, 'exploration',
            'One patch through every build configuration of the library (all sets of compressions, static '
            'and dynamic heatshrink, with and without file I/O). Non-trivial: the patch needs a compression '
            'some builds lack, or the to-data has at least 2 bytes.'),
    'C12': ('c', 16000, 600000, 'fault_enumeration',
            'A random patch (also cut or damaged) applied with every single allocation failing in turn, '
            'then released; all blocks and decoder streams are counted. Non-trivial: at least one '
            'allocation was made to fail.'),
    'C13': ('c', 32000, 900000, 'exploration',
            'Two to five contexts of different kinds, configurations and patches in one process, applied piece '
            'by piece or with the callback functions, and interleaved in a drawn order: between calls, nested '
            'inside of callbacks, or at any callback (threads of which one runs at a time). Non-trivial: '
            'contexts are switched more often than running them one after another would.'),
    'C14': ('c', 40000, 1500000, 'exploration',
            'A C01 or C02 case with the bytes allocated by the library counted, through the low level and the '
            'callback functions. Non-trivial: more than 300 bytes of to-data, or memory was allocated.'),
    'P01': ('py', 60000, 3000000, 'exploration',
            'Random from-data and a to-data made from it by edits (moves, insertions, deletions, repeats, '
            'unrelated data, empty and equal data), every compression, both suffix array algorithms, in '
            'memory, files and memory mapped files; some aim at patch sizes next to multiples of the read '
            'size. Non-trivial: both have at least 2 bytes and they differ.'),
    'P02': ('py', 80000, 3500000, 'exploration',
            'A P01 pair with random memory, segment and minimum shift sizes, valid and not. Non-trivial: '
            'from-data has at least 2 bytes and the to-data spans more than one segment, or the geometry '
            'has to be refused.'),
    'P03': ('py', 100000, 4000000, 'exploration',
            'A P01 pair in the bsdiff format, both ways against a bsdiff decoder and encoder written from '
            'the format. Non-trivial: both have at least 2 bytes.'),
    'P04': ('py', 40000, 2000000, 'exploration',
            'A P01 or P02 case whose patch is given to the C library, which is built from the same tree. '
            'Non-trivial: both have at least 2 bytes.'),
    'P05': ('py', 40000, 2000000, 'exploration',
            'Random, periodic, run-length and small-alphabet texts through both suffix array algorithms, '
            'under AddressSanitizer. Non-trivial: more than 2 bytes and more than one distinct byte.'),
    'P06': ('py', 60000, 2500000, 'exploration',
            'Patches made by the tree decoded by a decoder written from the format description, and patches '
            "made by the check's own encoder applied by the tree. Non-trivial: both data have at least 2 "
            'bytes.'),
    'P07': ('py', 150000, 6000000, 'exploration',
            'Lists of integers of all magnitudes packed, concatenated and unpacked, also against an own '
            'packer, and byte strings of all alignments added. Non-trivial: at least 2 values.'),
    'P08': ('py', 60000, 3000000, 'exploration',
            'Data compressed by the tree or by the check (all compressions, random compressor input '
            'pieces) read back in random sizes through short-reading files. Non-trivial: more than one '
            'byte of data and of compressed data.'),
    'P09': ('py', 50000, 2500000, 'exploration',
            'Synthetic program images for each data format (instructions the format knows, pointer tables, '
            'noise), relinked with moved targets, with no, partial, full or inconsistent address ranges. '
            'Non-trivial: the patch carries data format blocks.'),
    'P10': ('py', 55000, 3000000, 'exploration',
            'Patches of every kind made by the tree or by the check, described by the info function and '
            'the command. Non-trivial: the to-data has at least 2 bytes.'),
    'P11': ('py', 80000, 3500000, 'fault_enumeration',
            'A patch made by the tree is cut or damaged (also below the compression) and applied. '
            'Non-trivial: the bytes differ from the original and the to-data is not empty.'),
    'P12': ('py', 15000, 600000, 'exploration',
            'Sequences of command line program runs (create, apply, info of every kind, with random '
            'options and size units, and bad arguments and files) in a scratch directory. Non-trivial: '
            'a patch was created and applied.'),
    'P13': ('py', 15000, 2000000, 'exploration',
            'The same patch created several times by different routes (memory, files, memory maps, '
            'another order, after other work, in another process), also from ELF files on the command line. Non-trivial: the to-data is not empty.'),
    'P14': ('py', 25000, 1000000, 'exploration',
            'From-data without repetitions and a few known edits; sizes of what the patch carries are '
            'bounded by what the edits added. Every case counts.'),
    'P15': ('py', 20000, 1000000, 'exploration',
            'Patches of P01 pairs created without compression and applied, and the extension modules called '
            'with buffers of exactly the needed sizes, under AddressSanitizer and UndefinedBehaviorSanitizer, and '
            'with memory that runs out at an allocation of Python or of the heap. Non-trivial: both data have at least 2 bytes.'),
    'P16': ('py', 6000, 300000, 'exploration',
            'Creating, applying and describing a patch (valid, cut or damaged; files, memory maps, memory) '
            'repeated in one process while live blocks, heap bytes and open files are counted. '
            'Non-trivial: both data have at least 2 bytes.'),
    'P17': ('py', 15000, 600000, 'exploration',
            'ELF files of both classes and byte orders, written by the check from random sections and '
            'symbols (functions, objects, aliases, empty and other symbols, in any order), and the binaries '
            'they stand for, used to create data format patches on the command line, also with elf offsets, '
            'unusable files and ranges by hand. Non-trivial: a data range was found, or the request has to '
            'be refused.'),
    'P18': ('py', 50000, 2500000, 'exploration',
            'Program images as for P09. Patches of the package are decoded by the reference of the check, and '
            'patches of the check, with blocks of any runs of values, are applied by the package, both with '
            'every compression. Non-trivial: the patch carries values.'),
    'P19': ('py', 25000, 1500000, 'exploration',
            'Two to four uses of the package (creating, applying and examining patches of every kind, valid '
            'and damaged, and printing) run in threads of one process, one at a time, switched after any number '
            'of lines of the package by a schedule; compared to each alone. Non-trivial: at least two switches.'),
    'P20': ('py', 20000, 2000000, 'exploration',
            'Patches of the hdiffpatch and match-blocks algorithms made and applied through functions, files '
            'and the command line, with a model in place of the HDiffPatch library: in Python, and under the '
            "tree's own wrapper of the library. Also failures of the library, its files and memory, cut and damaged patches. "
            'Non-trivial: both data have at least 2 bytes, or a combination that has to be refused.'),
}
