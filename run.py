#!/opt/venv/bin/python
"""run.py ID        run the check of property ID (VERIF_TIER=quick|thorough, VERIF_SEED)
run.py --replay F   re-run the failed obligations recorded in the replay file F"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
	os.environ['PYTHONHASHSEED'] = '0'      # sets of names are iterated in the same order on every run
	os.execv(sys.executable, [sys.executable] + sys.argv)
import dv.env as env


def main(argv):
	if argv[0] == '--replay':
		from dv import core
		d = json.load(open(argv[1]))
		bad = 0
		seen = set()
		for f in d['failed']:
			t = f.get('task')
			if not t or (t['function'], t['args']) in seen:
				continue
			seen.add((t['function'], t['args']))
			led = core._run_task((t['module'], t['function'], eval(t['args'], {'Fraction': __import__('fractions').Fraction})))
			for v in led.violations[:5]:
				print(json.dumps(v, indent=1, default=str))
			bad += len(led.violations)
		print(f'{bad} violations of {d["property"]} reproduced')
		return 1 if bad else 0
	pid = argv[0].upper()
	try:
		m = importlib.import_module(f'dv.checks.{pid.lower()}')
	except ModuleNotFoundError as e:
		if e.name and e.name.startswith('dv.'):
			print(f'no check for {pid}: {e}')
			return 3
		raise
	return m.main()


if __name__ == '__main__':
	sys.exit(main(sys.argv[1:]))
