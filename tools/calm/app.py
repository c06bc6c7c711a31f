NAME = "dataplicity/app.py"
EDITS = [
    ('''        log_level = "CRITICAL" if self.args.quiet else self.args.log_level.upper()
        try:
            log_level_no = _logging_level_names[log_level]
        except KeyError:
            self.error("invalid log level")

        if self.args.log_file:
            log_config = {
                "version": 1,
                "disable_existing_loggers": False,
                "formatters": {
                    "simple": {
                        "class": "logging.Formatter",
                        "format": log_format,
                        "datefmt": "[%d/%b/%Y %H:%M:%S]",
                    }
                },
                "handlers": {
                    "file": {
                        "level": log_level,
                        "class": "logging.handlers.RotatingFileHandler",
                        "maxBytes": 5 * 1024 * 1024,
                        "backupCount": 5,
                        "filename": self.args.log_file,
                        "formatter": "simple",
                    }
                },
                "loggers": {"": {"level": log_level, "handlers": ["file"]}},
            }
            logging.config.dictConfig(log_config)
        else:
            logging.basicConfig(
                format=log_format, datefmt="[%d/%b/%Y %H:%M:%S]", level=log_level_no
            )
''', '''        date_format = "[%d/%b/%Y %H:%M:%S]"
        log_level = self.args.log_level.upper()
        if self.args.quiet:
            log_level = "CRITICAL"
        log_level_no = _logging_level_names.get(log_level)
        if log_level_no is None:
            self.error("invalid log level")

        if not self.args.log_file:
            logging.basicConfig(
                format=log_format, datefmt=date_format, level=log_level_no
            )
            return

        from logging.handlers import RotatingFileHandler

        handler = RotatingFileHandler(
            self.args.log_file, maxBytes=5 << 20, backupCount=5
        )
        handler.setLevel(log_level_no)
        handler.setFormatter(logging.Formatter(log_format, date_format))
        root = logging.getLogger()
        root.setLevel(log_level_no)
        root.addHandler(handler)
'''),
    ('''        subcommand = self.subcommands[args.subcommand]
        subcommand.args = args

        try:
            return subcommand.run() or 0
        except Exception as e:
            if self.args.debug:
                raise
            sys.stderr.write("(dataplicity {}) {}\\n".format(__version__, e))
''', '''        return self._run_subcommand(args)

    def _run_subcommand(self, args):
        """Run the chosen sub-command, returns the exit code."""
        chosen = self.subcommands[args.subcommand]
        chosen.args = args

        try:
            code = chosen.run()
            return code if code else 0
        except Exception as e:
            if args.debug:
                raise
            print("(dataplicity %s) %s" % (__version__, e), file=sys.stderr)
'''),
]
