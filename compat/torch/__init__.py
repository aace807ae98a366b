"""Stand-in for torch: Pythagoras only asks it for the number of GPUs, and importing the real one costs 5 s."""


class cuda:
    @staticmethod
    def device_count():
        return 0

    @staticmethod
    def is_available():
        return False


class Tensor:
    pass
