package tlc2.overrides;

import java.io.*;
import java.nio.charset.StandardCharsets;
import tlc2.value.impl.*;

public final class TextIOOverrides {
  @TLAPlusOperator(identifier = "EmitLines", module = "TextIO", warn = false)
  public static Value emit(StringValue file, Value seq) throws IOException {
    try (BufferedWriter w = new BufferedWriter(new OutputStreamWriter(new FileOutputStream(file.val.toString()), StandardCharsets.UTF_8))) {
      line(w, seq);
    }
    return BoolValue.ValTrue;
  }
  private static void line(BufferedWriter w, Value v) throws IOException {
    if (v instanceof StringValue) { w.write(((StringValue) v).val.toString()); w.write('\n'); }
    else { for (Value x : ((TupleValue) v.toTuple()).elems) line(w, x); }
  }
}
