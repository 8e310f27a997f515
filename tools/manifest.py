#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, check

REPLAY = 'TLA+ specification; behaviours generated by TLC replayed on the real code'
NOTES = {
    'C01': ('spec/Writer.tla (classic), Large.tla', 'Datasets are drawn by TLC simulation of the specification of the writer (bounded ranks, lengths, names); each is written by the real writer, read back and compared with the specification\'s state. Sampling, not exhaustive, except for the small configurations. A few variables of several GiB are written too (Large.tla).'),
    'C02': ('spec/Writer.tla (HDF5)', 'As C01, for trees of groups, ragged rows, coordinate variables and shared dimensions.'),
    'C08': ('spec/Writer.tla with invalid calls', 'Call sequences mixing valid and invalid calls; the specification says which are accepted and what the file then holds.'),
    'C05': ('spec/CdfFormat.tla, Large.tla', 'Files of all three versions (dimensions, attributes, fixed and record variables, any layout order) are built byte by byte by the specification, whose independent decoder confirms their meaning; the reader must return that meaning. Simulation plus all small files of one to three variables. Large.tla adds sparse files with variables and records of several GiB.'),
    'C10': ('spec/CdfFormat.tla, H5Storage.tla, Writer.tla', 'Every prefix of generated files of both kinds, from the specification\'s encoder, the library\'s writers and libnetcdf.'),
    'C17': ('spec/CdfFormat.tla, H5Storage.tla', 'The specification says which elements a file stores and what each of the others must be: cut classic files, and HDF5 files with unwritten chunks, records and variables.'),
    'C06': ('spec/H5Storage.tla, Large.tla', 'Write histories on arrays stored in every way (layout, chunk shape, filters, byte order, fill, growth); the files are made by libnetcdf; small shapes exhaustively, larger ones by simulation; also arrays of several GiB (Large.tla).'),
    'C03': ('spec/Slicing.tla, Large.tla', 'All slice requests in and out of range (small shapes exhaustively, drawn ones for larger) on variables of every storage kind of both formats, and slices of variables of several GiB.'),
    'C09': ('spec/Writer.tla, CdfBytes.tla, H5Bytes.tla, H5Nc.tla', 'Files the writers produce for drawn datasets are decoded by the specification itself (TLC evaluates a complete decoder of both formats, with all checksums, sizes and the disjointness of all parts) and by libnetcdf; both must find what the specification of the writer says was written.'),
    'C14': ('spec/H5Bytes.tla, H5Storage.tla, Writer.tla', 'The specification of the HDF5 format decodes each file and says which bytes lie under a checksum (superblock, headers, continuation blocks, index trees, heap blocks, fletcher32 chunks); these are changed one at a time and the file is opened and read completely, also in slices. Quick samples positions and values, thorough takes nearly all positions. Changes of several bytes are outside: fletcher32 cannot see all of them.'),
    'C15': ('spec/NcFile.tla, H5Groups.tla', 'Datasets (trees of groups, dimensions, coordinate and other variables, types, attributes, runs of hundreds of objects, later sessions) are drawn by TLC, written by libnetcdf in the order of the behaviour, and read by a drawn sequence of listings, lookups of existing, near and internal names, and paths through many handles; the specification gives every answer and the whole tree. H5Groups.tla adds histories of creating and deleting objects in files of the HDF5 library itself (symbol tables, compact and dense links, with and without creation order, up to thousands of entries). Simulation, and all short histories.'),
    'C04': ('spec/NcFile.tla', 'Long drawn sequences of requests on handles of one file: every answer must be the one the specification derives from the dataset alone, or at least the one a fresh handle gives to the request when it is the first (so that other defects do not count here), and equal requests must have equal answers. Simulation.'),
    'C07': ('spec/NcFile.tla, Copy.tla', 'Datasets with drawn user-defined types (enum, opaque, vlen, compound in three layouts, nested, with arrays and strings) used by variables and attributes; descriptions and values are computed by the specification. Files are made by libnetcdf. Copy.tla then writes what was read to new files (groups, variables, attributes in drawn orders), which are read back and also decoded by H5Bytes.tla. Simulation.'),
    'C12': ('spec/OrderedMap.tla, H5Groups.tla', 'Call sequences on attribute maps (construction, adding, hiding, storing in a file of either kind and reading back) with the listing, every lookup and every type description after each call; and attributes added to and deleted from files of the HDF5 library, in creation order where it is recorded.'),
    'C11': ('spec/Handles.tla, Writer.tla', 'Histories of opening (by path or from a file, of either kind, of bad files), asking for subgroups and getters, closing in any order and using handles late; the specification says how often the source is closed, which results are usable and what an error leaves open. Small configurations exhaustively, larger ones by simulation.'),
    'C13': ('spec/Faults.tla', 'A fault (error, unexpected end, failing seek) at every I/O operation a request makes, and sources with short reads in drawn patterns, on files of both formats: the request must fail or be right, and a retry must be right. Writers run into a size limit at drawn places and into a full device.'),
    'C18': ('spec/TypeMap.tla', 'Exhaustive: every built-in type in every shape up to the bound (scalars and zero lengths included), by both writers and libnetcdf, described and read as a whole, in slices and as attributes.'),
    'C16': ('spec/Names.tla', 'Every name of up to two (three) characters over 16 character classes in every position a name can have, and random longer ones; each class has several representative characters.'),
}

def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(vlib.VERIF, 'properties.jsonl'))]
    have = check.checks()
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
         'hooks': {'guard': 'verif', 'enable': 'no hooks: the checks use the public API only', 'source_commits': []},
         'checks': [], 'not_applicable': []}
    for i in ids:
        if i in have:
            t, n = NOTES[i]
            m['checks'].append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 tools/check.py ' + i,
                                'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
                                'evidence_file': 'evidence/%s.json' % i,
                                'technique': REPLAY + ': ' + t, 'level': 'model_checking', 'level_note': n})
        else:
            m['not_applicable'].append({'property': i, 'reason': 'not yet: the check is being built'})
    with open(os.path.join(vlib.VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')

main()
