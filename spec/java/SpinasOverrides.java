import tlc2.overrides.ITLCOverrides;

/** Tells TLC which class evaluates the operators of CNum.tla. */
public class SpinasOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { CNum.class };
    }
}
