import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** Reads every file of recorded runs only once. */
public class Trace {
  private static final ConcurrentHashMap<String, Value> READ = new ConcurrentHashMap<>();

  public static Value Recorded(final StringValue file) {
    return READ.computeIfAbsent(file.val.toString(), f -> {
      try {
        Value v = (Value) tlc2.overrides.Json.ndDeserialize(file);
        v.deepNormalize();
        return v;
      } catch (java.io.IOException e) {
        throw new RuntimeException(e);
      }
    });
  }
}
