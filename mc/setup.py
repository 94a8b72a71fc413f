"""setup_cmd: checks that the framework and the code under test load (nothing is built)"""
import os


def main():
    from . import registry
    n = len(registry.load())
    print(f"{n} scenarios")
    os._exit(0)


if __name__ == "__main__":
    main()
