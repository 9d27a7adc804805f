import tlc2.overrides.ITLCOverrides;
public class RealsOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override public Class[] get() { return new Class[]{Reals64Impl.class}; }
}
