import sys, os, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    import checks
    try:
        return checks.run(prop)
    except Exception:
        traceback.print_exc()
        print('analysis broken')
        return 2


if __name__ == '__main__':
    sys.exit(main())
