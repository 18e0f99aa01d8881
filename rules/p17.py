from rules.flv import p17 as check  # noqa
