"""C02: the ranks' views of the distributed mesh fit together."""
import common, check_C01


def run(ck):
    ck.rule = "one loaded database x (format, ranks, threads, decomposer, domains, loader, options); distinct by description"
    ck.assumptions = ["views are read through the public MESIO API of every rank"]
    check_C01.body(ck, "consistency")


if __name__ == "__main__":
    common.main("C02", run)
