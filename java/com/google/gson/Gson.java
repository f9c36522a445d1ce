package com.google.gson;

import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.lang.reflect.ParameterizedType;
import java.lang.reflect.Type;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** A stand-in for the library the Java code needs to read a database's metadata: objects, maps, arrays, numbers and texts. */
public final class Gson {
    public <T> T fromJson(String json, Class<T> c) {
        Parser p = new Parser(json);
        Object v = p.value();
        p.space();
        if (p.i != json.length()) {
            throw new RuntimeException("text after the JSON value");
        }
        return c.cast(convert(v, c));
    }

    private static Object convert(Object v, Type t) {
        if (v == null) {
            return null;
        }
        if (t instanceof ParameterizedType) {
            ParameterizedType pt = (ParameterizedType) t;
            if (pt.getRawType() == Map.class) {
                Map<Object, Object> out = new LinkedHashMap<>();
                for (Map.Entry<?, ?> e : ((Map<?, ?>) v).entrySet()) {
                    out.put(convert(e.getKey(), pt.getActualTypeArguments()[0]), convert(e.getValue(), pt.getActualTypeArguments()[1]));
                }
                return out;
            }
            if (pt.getRawType() == List.class) {
                List<Object> out = new ArrayList<>();
                for (Object e : (List<?>) v) {
                    out.add(convert(e, pt.getActualTypeArguments()[0]));
                }
                return out;
            }
            throw new RuntimeException("type " + t);
        }
        Class<?> c = (Class<?>) t;
        if (c == String.class) {
            return v.toString();
        }
        if (c == int.class || c == Integer.class) {
            return Integer.valueOf(new java.math.BigDecimal(v.toString()).intValueExact());
        }
        if (c == long.class || c == Long.class) {
            return Long.valueOf(new java.math.BigDecimal(v.toString()).longValueExact());
        }
        if (c == double.class || c == Double.class) {
            return Double.valueOf(v.toString());
        }
        if (c == boolean.class || c == Boolean.class) {
            return (Boolean) v;
        }
        if (c.isArray()) {
            List<?> l = (List<?>) v;
            Object out = Array.newInstance(c.getComponentType(), l.size());
            for (int i = 0; i < l.size(); i++) {
                Array.set(out, i, convert(l.get(i), c.getComponentType()));
            }
            return out;
        }
        if (c == Object.class) {
            return v;
        }
        try {
            java.lang.reflect.Constructor<?> k = c.getDeclaredConstructor();
            k.setAccessible(true);
            Object out = k.newInstance();
            Map<?, ?> m = (Map<?, ?>) v;
            for (Field f : c.getDeclaredFields()) {
                if (Modifier.isStatic(f.getModifiers()) || Modifier.isTransient(f.getModifiers()) || !m.containsKey(f.getName())) {
                    continue;
                }
                Object x = convert(m.get(f.getName()), f.getGenericType());
                if (x != null || !f.getType().isPrimitive()) {
                    f.setAccessible(true);
                    f.set(out, x);
                }
            }
            return out;
        } catch (ReflectiveOperationException e) {
            throw new RuntimeException(e);
        }
    }

    private static final class Parser {
        final String s;
        int i;

        Parser(String s) {
            this.s = s;
        }

        void space() {
            while (i < s.length() && " \t\r\n".indexOf(s.charAt(i)) >= 0) {
                i++;
            }
        }

        char next() {
            space();
            if (i >= s.length()) {
                throw new RuntimeException("JSON ends early");
            }
            return s.charAt(i);
        }

        void expect(char c) {
            if (next() != c) {
                throw new RuntimeException("expected " + c + " at " + i);
            }
            i++;
        }

        Object value() {
            switch (next()) {
                case '{': {
                    i++;
                    Map<String, Object> m = new LinkedHashMap<>();
                    if (next() == '}') {
                        i++;
                        return m;
                    }
                    while (true) {
                        next();
                        String k = text();
                        expect(':');
                        m.put(k, value());
                        if (next() == ',') {
                            i++;
                            continue;
                        }
                        expect('}');
                        return m;
                    }
                }
                case '[': {
                    i++;
                    List<Object> l = new ArrayList<>();
                    if (next() == ']') {
                        i++;
                        return l;
                    }
                    while (true) {
                        l.add(value());
                        if (next() == ',') {
                            i++;
                            continue;
                        }
                        expect(']');
                        return l;
                    }
                }
                case '"':
                    return text();
                default: {
                    int a = i;
                    while (i < s.length() && ",]} \t\r\n".indexOf(s.charAt(i)) < 0) {
                        i++;
                    }
                    String w = s.substring(a, i);
                    if (w.equals("null")) {
                        return null;
                    }
                    if (w.equals("true") || w.equals("false")) {
                        return Boolean.valueOf(w);
                    }
                    return new java.math.BigDecimal(w);
                }
            }
        }

        String text() {
            expect('"');
            StringBuilder b = new StringBuilder();
            while (true) {
                char c = s.charAt(i++);
                if (c == '"') {
                    return b.toString();
                }
                if (c != '\\') {
                    b.append(c);
                    continue;
                }
                c = s.charAt(i++);
                switch (c) {
                    case 'n': b.append('\n'); break;
                    case 't': b.append('\t'); break;
                    case 'r': b.append('\r'); break;
                    case 'b': b.append('\b'); break;
                    case 'f': b.append('\f'); break;
                    case 'u':
                        b.append((char) Integer.parseInt(s.substring(i, i + 4), 16));
                        i += 4;
                        break;
                    default: b.append(c);
                }
            }
        }
    }
}
