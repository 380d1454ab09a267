"""Entry point: python3 -m mon.check <property id>"""
import importlib, sys

WHERE = {
    'C01': 'p_scan', 'C02': 'p_scan', 'C03': 'p_scan', 'C04': 'p_scan', 'C06': 'p_scan', 'C12': 'p_scan',
    'C10': 'p_prog', 'C11': 'p_prog', 'C13': 'p_prog',
    'C14': 'p_edit', 'C15': 'p_edit', 'C16': 'p_proc',
    'C05': 'p_hist', 'C17': 'p_cont', 'C18': 'p_ext',
    'C19': 'p_tool', 'C20': 'p_tool',
    'C21': 'p_cost', 'C22': 'p_cost', 'C23': 'p_fault',
    'C07': 'p_stmt', 'C08': 'p_stmt', 'C09': 'p_stmt', 'C24': 'p_line',
}


def main():
    pid = sys.argv[1]
    mod = importlib.import_module('mon.' + WHERE[pid])
    getattr(mod, pid.lower())()


if __name__ == '__main__':
    main()
