from rules.ends import p16 as check  # noqa
