package tlc2.overrides;

import tlc2.tool.EvalControl;
import tlc2.value.impl.*;

/** Evaluation of the operators of spec/Iterate.tla. */
public final class IterateOverrides {
  @TLAPlusOperator(identifier = "Until", module = "Iterate", warn = false)
  public static Value until(final OpValue step, final OpValue done, Value s) {
    Value[] a = { s };
    while (!((BoolValue) done.eval(a, EvalControl.Clear)).val) a[0] = step.eval(new Value[] { a[0] }, EvalControl.Clear);
    return a[0];
  }
  @TLAPlusOperator(identifier = "Times", module = "Iterate", warn = false)
  public static Value times(final OpValue step, final Value n, Value s) {
    for (int k = BigVal.big(n).intValueExact(); k > 0; k--) s = step.eval(new Value[] { s }, EvalControl.Clear);
    return s;
  }
}
