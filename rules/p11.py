from rules.httpw import p11 as check  # noqa
