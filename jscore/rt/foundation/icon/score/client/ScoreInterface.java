package foundation.icon.score.client;
import java.lang.annotation.*;
@Retention(RetentionPolicy.CLASS)
@Target({ElementType.TYPE, ElementType.FIELD})
public @interface ScoreInterface {
    String suffix() default "";
}
