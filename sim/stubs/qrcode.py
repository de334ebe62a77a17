class QRCode:
    def __init__(self, *pa, **kwa):
        pass
