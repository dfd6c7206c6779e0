// Guarded(e): "yes"/"no" for a boolean e, and "undef" when e cannot be
// evaluated (an output of the wrong shape), so that a verdict is total.
import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import tlc2.overrides.ITLCOverrides;
import tlc2.tool.TLCState;
import tlc2.tool.coverage.CostModel;
import tlc2.tool.impl.Tool;
import tlc2.util.Context;
import tlc2.value.impl.*;

public class Guard implements ITLCOverrides {
  @Evaluation(definition = "Guarded", module = "Exact", warn = false, silent = true)
  public static Value guarded(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0,
      final TLCState s1, final int control, final CostModel cm) {
    try {
      Object v = tool.eval(args[0], c, s0, s1, control, cm);
      if (v instanceof BoolValue) return new StringValue(((BoolValue) v).val ? "yes" : "no");
      return new StringValue("undef");
    } catch (StackOverflowError | RuntimeException e) {
      if (System.getenv("VERIF_DEBUG") != null) System.err.println("undef: " + e.getMessage());
      return new StringValue("undef");
    }
  }
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() { return new Class[] { Guard.class }; }
}
