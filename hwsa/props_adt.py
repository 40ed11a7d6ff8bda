"""C19-C26, C31: algebraic data types, decided on client functions with abstract arguments."""
from .clients import run_clients


def C19(ck):
    run_clients(ck, 'adts', 'C19')


def C20(ck):
    run_clients(ck, 'adts', 'C20')


def C21(ck):
    run_clients(ck, 'adts', 'C21')


def C22(ck):
    run_clients(ck, 'adts', 'C22')


def C23(ck):
    run_clients(ck, 'adts', 'C23')


def C31(ck):
    run_clients(ck, 'adts', 'C31')


def C24(ck):
    run_clients(ck, 'retype', 'C24')


def C25(ck):
    run_clients(ck, 'retype', 'C25')


def C26(ck):
    run_clients(ck, 'retype', 'C26')


def C30(ck):
    run_clients(ck, 'retype', 'C30')


def C11(ck):
    run_clients(ck, 'eqhash', 'C11')


def C33(ck):
    run_clients(ck, 'eqhash', 'C33')


def C12(ck):
    run_clients(ck, 'symb', 'C12')


def C13(ck):
    run_clients(ck, 'symb', 'C13')


def C14(ck):
    run_clients(ck, 'symb', 'C14')


def C18(ck):
    run_clients(ck, 'symb', 'C18')
