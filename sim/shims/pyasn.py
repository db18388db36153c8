'''Stand-in for pyasn (absent from this sandbox): longest-prefix match over an IPASN text.'''
import ipaddress

class pyasn(object):
    def __init__(self, ipasn_file, as_names_file=None, ipasn_string=None):
        text = ipasn_string
        if text is None:
            with open(ipasn_file) as f:
                text = f.read()
        self.nets = []
        for line in text.splitlines():
            line = line.strip()
            if not line or line.startswith(';') or line.startswith('#'):
                continue
            net, asn = line.split()[:2]
            n = ipaddress.ip_network(unicode(net))
            self.nets.append((n.version, int(n.network_address), n.prefixlen, n.max_prefixlen, int(asn), net))
        self.nets.sort(key=lambda t: -t[2])

    def lookup(self, ip):
        a = ipaddress.ip_address(unicode(ip))
        v, x = a.version, int(a)
        for version, base, plen, maxlen, asn, net in self.nets:
            if version == v and (x >> (maxlen - plen)) == (base >> (maxlen - plen)):
                return asn, net
        return None, None
