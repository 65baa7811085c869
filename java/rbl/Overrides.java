package rbl;

import tlc2.overrides.ITLCOverrides;

public class Overrides implements ITLCOverrides {
  @Override
  @SuppressWarnings("rawtypes")
  public Class[] get() { return new Class[] {ZIntOverrides.class}; }
}
