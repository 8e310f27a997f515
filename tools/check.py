#!/usr/bin/env python3
"""check.py ID: runs the check of one property."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def checks():
    import writer, cdffmt, omap, names, storage, slicing, written, damage, ncfile, handles, faults, typemap, copying, large, h5groups
    d = {'C01': writer.c01, 'C02': writer.c02, 'C08': writer.c08, 'C05': lambda c: (cdffmt.c05(c), large.check(c, {'cdf1', 'cdf2', 'cdf5'}, c.n(240, 4000))), 'C10': storage.c10, 'C17': storage.c17, 'C12': lambda c: (omap.c12(c), h5groups.c12(c)), 'C16': names.c16, 'C06': lambda c: (storage.c06(c), large.check(c, {'hdf5'}, c.n(240, 4000))), 'C03': lambda c: (slicing.c03(c), large.check(c, {'cdf1', 'cdf2', 'cdf5', 'hdf5'}, c.n(160, 3000))), 'C09': written.c09,
         'C14': damage.c14, 'C15': lambda c: (ncfile.c15(c), h5groups.c15(c)), 'C04': ncfile.c04, 'C07': lambda c: (ncfile.c07(c), copying.c07(c)), 'C11': handles.c11, 'C13': faults.c13, 'C18': typemap.c18}
    return d


if __name__ == '__main__':
    pid = sys.argv[1]
    vlib.main(pid, checks()[pid])
