package sim;

import com.vxlisp.vx.Core;
import java.util.concurrent.CompletableFuture;

public class Leaf {
  @SuppressWarnings("unchecked")
  public static <T extends Core.Type_any> CompletableFuture<T> leaf(final Core.Type_int id, final T value) {
    return (CompletableFuture<T>) (CompletableFuture<?>) Driver.leaf(id.vx_int(), value);
  }

  public static Core.Type_boolean note(final Core.Type_string what, final Core.Type_boolean ok, final Core.Type_string name, final Core.Type_any value) {
    return Driver.note(what, ok, name, value);
  }

  public static Core.Type_boolean report(final Core.Type_string who, final Core.Type_string what, final Core.Type_string name, final Core.Type_string text, final Core.Type_any value) {
    return Driver.report(who, what, name, text, value);
  }
}
