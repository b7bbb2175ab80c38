class WC1994(object):
    def __hash__(self):
        return 7


class PeerMSR(object):
    def __hash__(self):
        return 8


def get_available_magnitude_scalerel():
    return dict(WC1994=WC1994, PeerMSR=PeerMSR)
