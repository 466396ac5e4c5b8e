"""Child process of C23: brings pickled objects back to life where nothing has
been imported yet.  Reads a pickled list of (pickle, octets or None) from standard
input; writes a pickled list of answers."""
import pickle, sys


def main():
    import mc                                       # finds the tree under check
    assert not any(m.startswith('pyasn1_modules') for m in sys.modules)
    out = []
    for p, octets in pickle.loads(sys.stdin.buffer.read()):
        try:
            o = pickle.loads(p)
            from pyasn1.codec.der import encoder, decoder
            if octets is not None:                  # a schema: use it
                o, rest = decoder.decode(octets, asn1Spec=o)
                assert not rest
            c = type(o)
            out.append(('ok', c.__module__ + '.' + c.__qualname__, encoder.encode(o)))
        except Exception as e:
            out.append(('error', type(e).__name__, str(e)[-300:]))
    sys.stdout.buffer.write(pickle.dumps(out))


if __name__ == '__main__':
    main()
