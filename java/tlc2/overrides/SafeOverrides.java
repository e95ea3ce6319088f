package tlc2.overrides;

import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.*;

/** Safe(e): the value of e, or the string "ERROR: .." when e has no value (a malformed observation). */
public final class SafeOverrides {
  @Evaluation(definition = "Safe", module = "SafeEval", warn = false, silent = true)
  public static Value safe(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0,
      final TLCState s1, final int control, final CostModel cm) {
    try {
      return (Value) tool.eval(args[0], c, s0, s1, control, cm);
    } catch (Throwable t) {
      if (t instanceof OutOfMemoryError) throw (OutOfMemoryError) t;
      String m = String.valueOf(t.getMessage()).replace('\n', ' ');
      return new StringValue("ERROR: " + (m.length() > 300 ? m.substring(0, 300) : m));
    }
  }
}
