"""Writes known_findings.json: the defects found in FLPR and repaired by a fix: commit (property <- commit subject)."""
import json, subprocess
PROP = {  # words of the commit subject -> property whose check found it
 'scanner tables': 'C11', 'real-literal scanner state': 'C04', 'integer followed by a dot': 'C04',
 'continuation state across': 'C03', 'leading whitespace': 'C04', 'token layout line': 'C04', 'split keyword': 'C04',
 'continued preprocessor lines': 'C01', 'carriage return after': 'C03',
 'trees of END DO': 'C10', 'unbalanced parentheses': 'C09', 'in front of its own start': 'C09', 'past the end of a statement gives': 'C09',
 'require the end of': 'C09', 'tag SYNC': 'C07', 'closing parenthesis': 'C09',
 'no statements to link': 'C11', 'past the end of the statements': 'C11', 'give back the statements': 'C10',
 'end a DO construct': 'C10', 'is_root': 'C11', 'type parameter definitions': 'C10', 'are not macros': 'C10',
 'fixed-format comments when': 'C13', 'indenting': 'C13', 'continuation column': 'C13', 'moved further left': 'C13', '.F90 file': 'C05', 'forget the previous': 'C05', 'scan errors in lines': 'C05', 'read_file returns': 'C05', 'converting to free form': 'C12', 'to free form': 'C12',
 'when a line is emptied': 'C14', 'clear a statement label': 'C14', 'both parts of a split': 'C14', 'in front of a split': 'C14',
 'starting with a semicolon': 'C14', 'when splitting a line': 'C14', 'over any number of lines': 'C14', 'when replacing part': 'C14',
 'moving a line to the left': 'C13', 'embedded comments when replacing': 'C14', 'continued without an ampersand': 'C15',
 'end position of a replaced': 'C15', 'append comments where': 'C15', 'rebuild the text of a line': 'C15', 'spaces around a removed': 'C15',
}
EXTRA = {}
try:
    from findings_extra import EXTRA
except ImportError:
    pass
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
fixed = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = next((v for k, v in list(EXTRA.items()) + list(PROP.items()) if k in s), 'C07')
    fixed.append(f'fixed: property={p} {h} {s}')
d = json.load(open('known_findings.json'))
d['fixed'] = fixed
json.dump(d, open('known_findings.json', 'w'), indent=1)
print('\n'.join(fixed))
