def assert_almost_equal(actual, desired, decimal=7, err_msg='', verbose=True):
    if actual == desired or (actual != actual and desired != desired):
        return
    if not abs(desired - actual) < 1.5 * 10 ** (-decimal):
        raise AssertionError('Arrays are not almost equal to %d decimals\n %r %r'
                             % (decimal, actual, desired))


def assert_equal(a, b, err_msg=''):
    if a != b:
        raise AssertionError('%r != %r' % (a, b))
