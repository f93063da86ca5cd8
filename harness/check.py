"""Command line of the checks: check.py PROPERTY"""
import os, shutil, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402


def main():
    pid = sys.argv[1]
    import core
    ctx = core.Ctx(pid)
    try:
        try:
            import props
        except Exception as e:  # the library itself does not import any more
            if isinstance(e, common.MachineryError):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            if any("/verse/" in f.filename for f in tb) and not isinstance(e, AssertionError):
                ctx.violation("the library cannot be imported: " + repr(e), {})
                return core.finish(ctx)
            raise
        level = props.run(ctx)
        return core.finish(ctx, level)
    finally:
        core.close_pool()
        shutil.rmtree(ctx.work, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
