package tlc2.overrides;

/** Stands before CommunityModules' class of the same name; loads the overrides this project uses. */
public class TLCOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] { BigIntOverrides.class, TextIOOverrides.class, PrimesOverrides.class, IterateOverrides.class, SafeOverrides.class, IOUtils.class, Json.class, SequencesExt.class,
                         FiniteSetsExt.class, Functions.class };
  }
}
