use std::{collections::HashMap, str::FromStr};

use commands::Commands;
use model::{Command, EventHandlerNamespace, ParsedEventHandler, Version};
use rust_embed::RustEmbed;

pub mod commands;
pub mod model;

#[derive(RustEmbed)]
#[folder = "assets/"]
struct Asset;

pub struct Wiki {
    version: Version,
    // commands: HashMap<String, Command>,
    commands: Commands,
    event_handlers: HashMap<EventHandlerNamespace, Vec<ParsedEventHandler>>,
    custom: Vec<String>,
    /// Whether the wiki was just updated.
    updated: bool,
}

impl Wiki {
    #[must_use]
    pub const fn version(&self) -> &Version {
        &self.version
    }

    #[must_use]
    pub const fn commands(&self) -> &Commands {
        &self.commands
    }

    #[must_use]
    pub const fn event_handlers(&self) -> &HashMap<EventHandlerNamespace, Vec<ParsedEventHandler>> {
        &self.event_handlers
    }

    #[must_use]
    pub const fn updated(&self) -> bool {
        self.updated
    }

    #[must_use]
    pub fn load(force_pull: bool) -> Self {
        let _ = force_pull;
        Self::load_dist()
    }

    pub fn add_custom_command(&mut self, command: Command) {
        let name = command.name().to_lowercase();
        self.custom.push(name.clone());
        self.commands.raw_mut().insert(name, command);
    }

    /// Adds a custom command to the wiki.
    ///
    /// # Errors
    /// Returns an error if the command could not be parsed.
    pub fn add_custom_command_parse(&mut self, command: &str) -> Result<Command, String> {
        let command: Command = serde_yaml::from_str(command).map_err(|e| format!("{e}"))?;
        self.add_custom_command(command.clone());
        Ok(command)
    }

    pub fn remove_command(&mut self, name: &str) -> bool {
        let name = name.to_lowercase();
        self.commands.raw_mut().remove(&name);
        if self.custom.contains(&name) {
            self.custom.retain(|c| c != &name);
            true
        } else {
            false
        }
    }

    #[must_use]
    pub fn is_custom_command(&self, name: &str) -> bool {
        self.custom.contains(&name.to_lowercase())
    }

    #[must_use]
    pub fn event_handler(&self, id: &str) -> Vec<(EventHandlerNamespace, &ParsedEventHandler)> {
        let mut handlers = Vec::new();
        for (ns, hs) in &self.event_handlers {
            if let Some(handler) = hs.iter().find(|h| h.id() == id) {
                handlers.push((*ns, handler));
            }
        }
        handlers
    }

    /// There is no remote here: the commands are the ones of `assets`.
    ///
    /// # Errors
    /// Always.
    pub fn load_git(_force_pull: bool) -> Result<Self, String> {
        Err("no remote".to_string())
    }

    #[must_use]
    /// Loads the wiki from the embedded assets.
    ///
    /// # Panics
    /// Panics if the assets are not found.
    pub fn load_dist() -> Self {
        let mut commands = HashMap::new();
        let mut event_handlers = HashMap::new();
        for entry in Asset::iter() {
            let path = entry.as_ref();
            if path.starts_with("commands/")
                && std::path::Path::new(path)
                    .extension()
                    .map_or(false, |ext| ext.eq_ignore_ascii_case("yml"))
            {
                let command: Command = serde_yaml::from_str(
                    std::str::from_utf8(Asset::get(path).unwrap().data.as_ref()).unwrap(),
                )
                .unwrap();
                commands.insert(command.name().to_lowercase(), command);
            } else if path.starts_with("events/") {
                let parts: Vec<&str> = path.split('/').collect();
                if parts.len() == 3 {
                    let ns = EventHandlerNamespace::from_str(parts[1]).unwrap();
                    let handler: ParsedEventHandler = serde_yaml::from_str(
                        std::str::from_utf8(Asset::get(path).unwrap().data.as_ref()).unwrap(),
                    )
                    .unwrap();
                    event_handlers
                        .entry(ns)
                        .or_insert_with(Vec::new)
                        .push(handler);
                }
            }
        }
        Self {
            version: Version::from_wiki(
                std::str::from_utf8(Asset::get("version.txt").unwrap().data.as_ref())
                    .unwrap()
                    .trim(),
            )
            .unwrap(),
            commands: Commands::new(commands),
            event_handlers,
            updated: false,
            custom: Vec::new(),
        }
    }
}
