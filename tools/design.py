#!/opt/venv/bin/python
"""Write DESIGN.md from tools/design_head.md, the harnesses and plants."""
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path[:0] = ['/repo', VERIF, HERE]
sys.dont_write_bytecode = True
import plants           # noqa

# oracle, how the solver decides it
HOW = {
 'C01': 'Packs are driven through histories of mask changing operations with all bits, triggers and durations symbolic. Oracle: the maximal true runs counted from the mask itself; parts(), slices behind part= and the elements of each part are compared with them.',
 'C02': 'The call is executed for every mask mode with symbolic masks and elements. Oracle: elementwise definition of filter, nan-fill and no mask; the pack is compared with its state before the call.',
 'C03': 'Oracle: a two line latch recurrence over the symbolic triggers (on when started and not stopped, stop wins), compared element by element.',
 'C04': 'Oracle: every run of the symbolic mask is kept iff its length compares with duration times rate; the mask before and after is compared element by element.',
 'C05': 'Histories of updates with mindur symbolic and set at a symbolic point; after each step no true run may be shorter and a reference replay of the history without mindur plus filtering must agree.',
 'C06': 'Every route to a new mask; claim: bool dtype, all true, length of the array of the lowest key.',
 'C07': 'Chains of appends over all combinations of key sets; oracle: concatenated lists, file names; snapshots of all packs before a failing append; later writes to one pack looked for in the others.',
 'C08': 'A dict based reference of the documented order (key, name, fallback name) against the real look-up, with the looked-up string and the names symbolic.',
 'C09': 'Each record is compared with channel calls of the same arguments; field names with the names or fallback names.',
 'C10': 'Sequences of stores with symbolic keys and kinds of values; after each the mapping must hold int keys and flat arrays, and bad items must raise and leave it as it was.',
 'C11': 'Attempts to set or delete guarded attributes with values of every kind; state snapshot before and after a refused attempt.',
 'C12': 'The text is generated from a symbolic table; oracle: the fields themselves, converted by the exact decimal value of their symbolic digits.',
 'C13': 'As C12 with symbolic column selections; oracle: the selected columns of the table by number.',
 'C14': 'Skipped lines are arbitrary symbolic text; oracle: the rows after them.',
 'C15': 'Which fields are missing and where blank lines are is symbolic; oracle: the table with nan or empty text.',
 'C16': 'The same symbolic content is read as text, bytes with encoding and file (virtual); outcomes (data, names, or type of error) must agree.',
 'C17': 'Each symbolic input is read with and without debug; outcomes must agree, error types too.',
 'C18': 'Header, table and delimiter are generated symbolically; oracle: the table and names.',
 'C19': 'Streams and virtual files record opening and closing; failures are injected at a symbolic row; claims on closed, position and reads from the position; workbooks whole, cut and damaged, with their memory maps and zip members.',
 'C20': 'The DBF file is built from symbolic bytes; oracle: values from the same bytes by the field type.',
 'C21': 'The same symbolic file read with and without names; projection by name.',
 'C22': 'Symbolic letters and digits; oracle: the weighted sum of the letters; inverse functions composed.',
 'C23': 'xlsx workbooks with symbolic cell kinds and values, read by sheetpack; oracle: the kinds of all cells of the column decide the representation.',
 'C24': 'Symbolic start and stop cells, header and usecols on a grid of distinct symbolic values; oracle: the sub-grid.',
 'C25': 'Day numbers are symbolic per century and month; oracle: the Gregorian leap rule in closed form, integer arithmetic by the solver.',
 'C26': 'Cells put at symbolic places in any order, ragged or not; oracle: a dict of cells.',
 'C27': 'The XML parts are built with symbolic text; a virtual zip file and element tree feed the real reader; oracle: the cells put in.',
 'C28': 'The BIFF stream is built of symbolic bytes (mantissas, packed numbers, characters, positions); oracle: value by the definition of the record.',
 'C29': 'The shared string table is cut at symbolic places with symbolic widths; oracle: the texts put in.',
 'C30': 'The container is laid out by a symbolic placing; each sector holds a symbolic cell value; oracle: the cells in order. Damaged links must raise within the watchdog time.',
 'C31': 'Symbolic format strings; oracle: an independent tokeniser of the format language.',
 'C33': 'The same symbolic workbook opened with symbolic options and orders of loading; oracle: the cells put in, with the blanks when formatting is asked for.',
 'C34': 'The records (or XML parts) are built with symbolic places, texts, flags and cuts; oracle: the notes, links and ranges put in.',
 'C35': 'NAME records with formulas built from symbolic choices of operands and operators and symbolic addresses; oracle: an evaluation by the definition of the operators; the cells of every sheet must be read in each case.',
 'C36': 'The XF, FONT, STYLE, PALETTE, ROW and COLINFO records are built of symbolic bits for each file version; oracle: the fields by the published layout of the records.',
 'C32': 'As C28, with the records of Excel 2 to 4 built from symbolic bytes; oracle: the cells and formats put in.',
}


def w(s, ind=''):
    return textwrap.fill(' '.join(s.split()), 78, initial_indent=ind,
                         subsequent_indent=ind)


def main():
    props = [json.loads(x) for x in open(VERIF + '/properties.jsonl')]
    out = [open(HERE + '/design_head.md').read().rstrip(), '',
           '## The properties', '']
    costs = {}
    if os.path.exists(HERE + '/costs.json'):
        costs = json.load(open(HERE + '/costs.json'))
    for p in props:
        h = importlib.import_module('harness.' + p['id'].lower())
        out += ['### %s %s' % (p['id'], p['title']), '',
                w(p['statement']), '',
                w('- **Decided by:** ' + HOW[p['id']]),
                w('- **Bounds:** ' + h.BOUNDS),
                w('- **Outside:** ' + h.OUTSIDE)]
        if h.ASSUMPTIONS:
            out.append(w('- **Assumed:** ' + '; '.join(h.ASSUMPTIONS)))
        out.append(w('- **Anchored in:** ' + ', '.join(
            m['where'] for m in p['anchors']['mechanism'])))
        if p['id'] in costs:
            out.append(w('- **Cost (8 cores, unchanged tree):** ' +
                         costs[p['id']]))
        out += [w('- **Why not tests:** ' + p['why_tests_cant']), '']
    out += ['## Planted bugs', '',
            'Each passes the existing tests; "caught" is by the quick check '
            'of its property.', '',
            '| bug | property | needs | caught |',
            '|---|---|---|---|']
    for b in plants.BUGS:
        out.append('| %s | %s | %s | %s |' % (
            b['id'], b['property'], ' '.join(b['needs'].split()),
            b.get('caught', 'yes')))
    with open(VERIF + '/DESIGN.md', 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
