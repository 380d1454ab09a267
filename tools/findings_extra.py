"""Further subjects, looked at first."""
EXTRA = {
 'count the control columns': 'C24', 'does not move its text': 'C24', "'0' in column 6": 'C03',
 'partitions in order': 'C16', 'region it was added to': 'C16', 'had no program-stmt': 'C16', 'name is split by': 'C16',
 'Procedure forgets': 'C16', 'nameless main-program': 'C16', 'Range_Partition.hh': 'C16', 'by one of the same kind': 'C16',
 'only an END statement': 'C16',
 'Safe_List that was moved': 'C17', 'remove_if': 'C17', 'Tree from a const': 'C17',
 'action-stmt extensions': 'C18', 'is_name of a client': 'C18',
 'when splitting compound': 'C19', 'output option of flpr': 'C19', 'not be read or parsed': 'C19',
 'no semicolon in front': 'C19', 'begins on a continuation': 'C19', 'keeps the indentation': 'C19',
 'does not make an include': 'C03', 'is a form feed': 'C01',
 'behind the last column': 'C19', 'trailing text in place': 'C19', 'text to the right': 'C19',
 'stream state': 'C02', 'leading spaces of a fixed': 'C03', 'unspace_main': 'C01',
 'size of a fixed-format line': 'C02', 'whatever the stream fills': 'C04',
 'could not be read to its end': 'C23', 'output which could not be written': 'C23', 'list of names which cannot be read': 'C23',
}
