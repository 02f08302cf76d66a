"""Write MANIFEST.json. The list of checks grows with the framework."""
import json, os
MC = 'TLA+ design model checked exhaustively with TLC, and TLC trace validation of observations of the real code'
NOTES = {
    'C01': 'SeqWriter/PbfFormat models exhaustive within small bounds; real write/read histories (random, boundary and extreme values) decided by TraceSeq',
    'C02': 'every byte of written files is parsed independently and decoded by PbfFormat.tla; framing, block structure and order decided by TraceSeq',
    'C03': 'files with the freedoms of the format, written by an independent encoder; TLC computes their content with PbfFormat.tla and compares',
    'C04': 'Header.tla; all subsets of features and present fields, plus random headers, decided by TraceHeader',
    'C05': 'pipeline model over all interleavings of small programs; real writers in key form, every arrival order of six blocks at the writing thread enforced, decided by TracePWriter',
    'C06': 'the same models; inputs further out of order than the buffer, losses at every edge, decided by TracePWriter',
    'C07': 'pipeline model with a disk that fails at any moment; real writers with every disk budget of small files, decided by TracePWriter',
    'C08': 'iteration model over all interleavings of small files and failure sets; recorded callbacks per thread decided by TracePRead',
    'C10': 'every short script of adds and takes generated by TLC and replayed, long random ones, and copy pipelines decided by TraceAcc and TracePWriter',
    'C09': 'parallel summary model over all interleavings of small files; real files and merge sequences decided by TraceCount',
    'C11': 'the order of the specification is checked to be a total order; observed comparisons of all pairs and sorts of long lists decided by TraceOrder',
    'C12': 'every history over four keys generated by TLC (ApidbWriterMC) and replayed, plus random and extreme values; the rows of the files are decided by TraceDump against DumpModel.tla',
    'C13': 'the same histories, with deletions and restored objects; current tables decided by TraceDump',
    'C14': 'DumpJoin model exhaustive for small databases; histories written and read back, also ones too large for one part of the sort, decided by TraceTrip',
    'C15': 'DumpJoin model; dumps by an independent writer with every order of columns and rows, other tables and nulls, decided by TraceDumpRead against DumpModel.tla',
    'C16': 'CopyText.tla checked exhaustively for short texts; all short texts and cells over the characters that matter, written and read by the real code, decided by TraceCopy',
    'C17': 'DumpModel.tla; histories with many users and changesets; reference tables, end markers, widths and types decided by TraceDump',
    'C18': 'stream model; every byte cut of small files in five ways of reading decided by TraceStream',
    'C19': 'writer model with crash cuts; real files after each call and cut within each call decided by TraceSeq',
    'C20': 'writer model with a failing disk; every disk budget of small files and dumps decided by TraceSeq/TraceDump',
    'C21': 'every short script of iterator operations generated by TLC and replayed, plus long random ones, decided by TraceIters',
    'C22': 'every chain of conversions of small histories explored by TLC (ConversionMC) against the format limits; real chains through all readers and writers decided stage by stage by TraceConversion',
    'C23': 'interleaved operations on iterators of real dumps decided by TraceIters',
    'C24': 'DumpDamageMC explores all damages of small dumps; every kind of damage to real dumps decided by TraceDamage from the facts of the damaged files',
    'C25': 'ResourcesMC explores what a process holds through calls that fail at every step; threads and open files after each of many mixed uses of the real library decided by TraceResources',
    'C26': 'MemoryMC explores the chain of bounded queues and buffers; bytes held while much data passes through the real readers and writers decided by TraceMemory against the bound of the specification',
    'C27': 'PbfDamageMC explores readers and worker pools on damaged files; every kind of damage to real files, which TLC judges from their wire structure, read in every way and decided by TraceBlobs',
    'C28': 'ModelText.tla (grammar of boxes, calendar) checked against independent definitions; texts, boxes, coordinates and times, all limits and random ones, through the real code, decided by TraceText',
}
LEVEL = {'C20': 'model_checking'}


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl')) if l.strip()]
    checks = []
    na = []
    for p in props:
        i = p['id']
        if i in NOTES:
            checks.append(dict(property=i, quick_cmd=f'./check.sh {i}', thorough_cmd=f'./check.sh {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                               technique=MC, level=LEVEL.get(i, 'model_checking'), level_note=NOTES[i]))
        else:
            na.append(dict(property=i, reason='the check is under construction'))
    m = dict(version=1, setup_cmd='./setup.sh',
             hooks=dict(guard='osm_io_verif', enable='harness/.cargo/config.toml passes --cfg osm_io_verif to rustc; the driver crate in harness/ depends on /repo by path',
                        source_commits=['HOOKCOMMIT']),
             checks=checks, not_applicable=na)
    import subprocess
    h = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif:'], capture_output=True, text=True).stdout.split()
    m['hooks']['source_commits'] = h[::-1]
    with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
